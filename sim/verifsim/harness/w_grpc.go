//go:build go1.23

package harness

import (
	"context"
	"encoding/binary"
	"math"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	gstats "google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"

	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifsim/simrt"
)

// The gRPC workload: callers make RPCs, unary and streaming, whose events reach
// the client and server handlers the way grpc-go sends them: the harness takes
// grpc-go's part, the metadata and the handlers are real. Between them is a
// network that delays, loses, duplicates and damages.

// Network modes of an RPC.
const (
	rgNormal    = iota
	rgNoConn    // it ends before anything is sent
	rgLate      // the server runs it after the client gave up
	rgDuplicate // a transparent retry: the server sees it twice
	rgCancel    // ended by another goroutine at any moment
	rgLost      // nothing arrives
)

type rgOp struct {
	method, parent, tags, shape, nsend, nrecv, mode, ff, shared, big, status int // A
	damage, darg, d1, d2, d3, sstatus, ssend, srecv, noBegin, nested, fwd    int // B
	early, link                                                              int
}

func (o *rgOp) decode(a, b int64) {
	x := bitr{uint64(a)}
	o.method, o.parent, o.tags, o.shape, o.nsend, o.nrecv, o.mode, o.ff, o.shared, o.big, o.status = x.n(2), x.n(3), x.n(3), x.n(2), x.n(3), x.n(3), x.n(3), x.n(1), x.n(1), x.n(1), x.n(5)
	y := bitr{uint64(b)}
	o.damage, o.darg, o.d1, o.d2, o.d3, o.sstatus, o.ssend, o.srecv, o.noBegin, o.nested, o.fwd, o.early = y.n(4), y.n(6), y.n(4), y.n(4), y.n(4), y.n(5), y.n(3), y.n(3), y.n(1), y.n(2), y.n(1), y.n(2)
}

func (o rgOp) encode() (int64, int64) {
	var x, y bitw
	x.add(2, o.method).add(3, o.parent).add(3, o.tags).add(2, o.shape).add(3, o.nsend).add(3, o.nrecv).add(3, o.mode).add(1, o.ff).add(1, o.shared).add(1, o.big).add(5, o.status)
	y.add(4, o.damage).add(6, o.darg).add(4, o.d1).add(4, o.d2).add(4, o.d3).add(5, o.sstatus).add(3, o.ssend).add(3, o.srecv).add(1, o.noBegin).add(2, o.nested).add(1, o.fwd).add(2, o.early)
	return int64(x.v), int64(y.v)
}

// rgEv is one message of an RPC on one side.
type rgEv struct {
	iv
	sent    bool
	n, wire int
}

// rgSide is an RPC as one side sees it.
type rgSide struct {
	cancel   func()
	gone     bool
	id       int
	client   bool
	method   string // full name
	failFast bool
	ctx      context.Context
	tagged   iv // TagRPC
	begun    bool
	begin    iv
	evs      []*rgEv
	ending   bool
	ended    *iv
	err      error
	sc       trace.SpanContext
	parent   trace.SpanContext
	link     trace.SpanContext
	tags     map[string]string
	exports  []*trace.SpanData
}

type rgSim struct {
	h         *H
	base      clockBase
	sides     []*rgSide
	bySpan    map[trace.SpanID]*rgSide
	views     []*view.View
	keys      []tag.Key
	client    *ocgrpc.ClientHandler
	server    *ocgrpc.ServerHandler
	tasks     []*simrt.Task
	exported  []*trace.SpanData
	shared    context.Context
	calls     int
	nMethods  int
	firstMore int // of keys
	seq       int
	scale     int                      // of payloads
	caller    func() func(*trace.Span) // told of callers' spans
}

var (
	rgTagA = tag.MustNewKey("rpc_a")
	rgTagB = tag.MustNewKey("rpc_b")
	rgTagC = tag.MustNewKey("rpc_local")
)

var rgMethods = []string{"/pkg.Svc/Get", "/pkg.Svc/Put", "/a.B/C", "/pkg.Svc/Get/x"}

// rgOddMethods are what a server may be asked for, but no tag can hold.
var rgOddMethods = [2][]string{
	{"/pkg.Svc/Get", "/pkg.Svc/" + strings.Repeat("Long", 70), "/p\u00e4ckchen.Svc/Get", "/pkg.Svc/Get\x7f"},
	{"/" + strings.Repeat("l", 255), "/" + strings.Repeat("l", 256), "/a~/!", "/\x1f"},
}

func (s *rgSim) methodOf(o rgOp) string {
	if k := s.h.K("odd"); k != 0 {
		return rgOddMethods[k-1][o.method]
	}
	if k := s.h.K("methods"); k != 0 {
		s.nMethods += 7
		return rgMethods[o.method] + sf("%d", s.nMethods%int(k))
	}
	return rgMethods[o.method]
}

func rgStatusName(c codes.Code) string {
	names := []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}
	if int(c) < len(names) {
		return names[c]
	}
	return sf("CODE_%d", uint32(c))
}

func rgError(k, id int) error {
	if k > 24 {
		k = 0
	}
	if k == 0 {
		return nil
	}
	c := codes.Code(k)
	switch k {
	case 23:
		c = 1 << 31
	case 24:
		c = 1<<32 - 1
	}
	return status.Error(c, sf("message %d", id))
}

// rgDecode is the encoding of tags, written from its description.
func rgDecode(b []byte) (map[string]string, bool) {
	m := map[string]string{}
	if len(b) == 0 {
		return m, true
	}
	if b[0] != 0 {
		return nil, false
	}
	b = b[1:]
	str := func() (string, bool) {
		n, k := binary.Uvarint(b)
		if k <= 0 || n > uint64(len(b)-k) {
			return "", false
		}
		s := string(b[k : k+int(n)])
		b = b[k+int(n):]
		if len(s) > 255 {
			return "", false
		}
		for i := 0; i < len(s); i++ {
			if s[i] < 32 || s[i] > 126 {
				return "", false
			}
		}
		return s, true
	}
	for len(b) > 0 {
		if b[0] != 0 {
			return nil, false
		}
		b = b[1:]
		k, ok := str()
		if !ok || k == "" {
			return nil, false
		}
		v, ok := str()
		if !ok {
			return nil, false
		}
		m[k] = v
	}
	return m, true
}

// rgParse is the binary format of trace contexts.
func rgParse(b []byte) (sc trace.SpanContext, ok bool) {
	if len(b) < 27 || b[0] != 0 || b[1] != 0 || b[18] != 1 {
		return
	}
	copy(sc.TraceID[:], b[2:18])
	copy(sc.SpanID[:], b[19:27])
	if len(b) >= 29 && b[27] == 2 {
		sc.TraceOptions = trace.TraceOptions(b[28])
	}
	if sc.TraceID == (trace.TraceID{}) || sc.SpanID == (trace.SpanID{}) {
		return trace.SpanContext{}, false
	}
	return sc, true
}

func rgBinary(sc trace.SpanContext) string {
	return "\x00\x00" + string(sc.TraceID[:]) + "\x01" + string(sc.SpanID[:]) + "\x02" + string([]byte{byte(sc.TraceOptions)})
}

func (s *rgSim) tagsOf(ctx context.Context) map[string]string {
	m := map[string]string{}
	tm := tag.FromContext(ctx)
	for _, k := range s.keys {
		if v, ok := tm.Value(k); ok {
			m[k.Name()] = v
		}
	}
	return m
}

func (s *rgSim) addKey(k tag.Key) {
	for _, x := range s.keys {
		if x == k {
			return
		}
	}
	s.keys = append(s.keys, k)
}

func rgSameTags(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func (s *rgSim) sampler(knob string, method string, parent trace.SpanContext) bool {
	switch s.h.K(knob) {
	case 1:
		return true
	case 2:
		return false
	}
	return parent.IsSampled()
}

// payload hands one message to a side's handler.
func (s *rgSim) payload(r *rgSide, sent bool, big int) {
	simrt.Y()
	s.seq++
	e := &rgEv{sent: sent, n: s.seq}
	if big != 0 {
		e.n *= 1009
	}
	if s.seq%7 == 0 {
		e.n = 0
	}
	if s.scale > 1 {
		e.n *= s.scale
	}
	e.wire = e.n + 5
	if s.seq%14 == 0 { // not known, as with some transports
		e.wire = 0
	}
	r.evs = append(r.evs, e)
	var rs gstats.RPCStats
	now := time.Time{}
	if sent {
		rs = &gstats.OutPayload{Client: r.client, Length: e.n, WireLength: e.wire, SentTime: now}
	} else {
		rs = &gstats.InPayload{Client: r.client, Length: e.n, WireLength: e.wire, RecvTime: now}
	}
	e.iv = begin("message", r.id)
	s.handle(r, rs)
	e.end("message done")
}

func (s *rgSim) handle(r *rgSide, rs gstats.RPCStats) {
	if r.client {
		s.client.HandleRPC(r.ctx, rs)
	} else {
		s.server.HandleRPC(r.ctx, rs)
	}
}

func (s *rgSim) beginRPC(r *rgSide) {
	r.begun = true
	r.begin = begin("begin", r.id)
	s.handle(r, &gstats.Begin{Client: r.client, FailFast: r.failFast})
	r.begin.end("begin done")
}

// finish ends a side once, as grpc-go does.
func (s *rgSim) finish(r *rgSide, err error) {
	simrt.Y()
	if r.ending {
		return
	}
	r.ending = true
	r.err = err
	if r.gone { // its context is cancelled, whatever became of it
		r.cancel()
	}
	v := begin("end", r.id)
	r.ended = &v
	s.handle(r, &gstats.End{Client: r.client, Error: err})
	v.end("end done")
	r.cancel()
}

func (s *rgSim) spawn(name string, f func()) *simrt.Task {
	t := simrt.Spawn(name, f)
	s.tasks = append(s.tasks, t)
	return t
}

// call makes one RPC.
func (s *rgSim) call(ctx context.Context, o rgOp, depth int) {
	h := s.h
	s.calls++
	ctx, cancel := context.WithCancel(ctx)
	c := &rgSide{cancel: cancel, gone: (o.d1+o.d2)%3 == 0, id: len(s.sides), client: true, method: s.methodOf(o), failFast: o.ff == 1}
	s.sides = append(s.sides, c)
	c.parent = trace.FromContext(ctx).SpanContext()
	c.tags = s.tagsOf(ctx)
	hadTags := tag.FromContext(ctx) != nil
	outBefore, _ := metadata.FromOutgoingContext(ctx)
	c.tagged = begin("tag", c.id)
	cctx := s.client.TagRPC(ctx, &gstats.RPCTagInfo{FullMethodName: c.method, FailFast: c.failFast})
	c.tagged.end("tagged")
	c.ctx = cctx
	c.sc = trace.FromContext(cctx).SpanContext()
	if !h.Check("C16", c.sc.SpanID != (trace.SpanID{}) && c.sc.SpanID != c.parent.SpanID && s.bySpan[c.sc.SpanID] == nil, "no-client-span", "no new span for call %d", c.id) {
		return
	}
	s.bySpan[c.sc.SpanID] = c
	if c.parent != (trace.SpanContext{}) {
		h.Check("C17", c.sc.TraceID == c.parent.TraceID, "client-trace", "client span %d is not of its caller's trace", c.id)
	}
	h.Check("C17", c.sc.IsSampled() == s.sampler("csampler", c.method, c.parent), "client-sampling", "client span %d is sampled: %v; its caller: %v", c.id, c.sc.IsSampled(), c.parent.IsSampled())
	h.Check("C17", rgSameTags(s.tagsOf(cctx), c.tags), "caller-tags", "the tags of call %d became %v, were %v", c.id, s.tagsOf(cctx), c.tags)

	// what goes on the wire
	out, _ := metadata.FromOutgoingContext(cctx)
	md := metadata.MD{}
	for k, v := range outBefore {
		if k != "grpc-trace-bin" {
			md[k] = v
		}
	}
	md["grpc-trace-bin"] = []string{rgBinary(c.sc)}
	h.Check("C17", sp(md) == sp(out), "metadata", "call %d is sent with metadata %q; want %q", c.id, sp(out), sp(md))
	raw := append([]byte(nil), gstats.OutgoingTags(cctx)...)
	wire := map[string]string{}
	for k, v := range c.tags {
		if k != rgTagC.Name() {
			wire[k] = v
		}
	}
	got, ok := rgDecode(raw)
	h.Check("C17", ok && rgSameTags(got, wire), "tags-sent", "call %d sends tags %v (%v); want %v", c.id, got, ok, wire)
	if !hadTags {
		raw = nil
	}
	if o.mode == rgNoConn {
		s.beginRPC(c)
		h.Fault("rpc without connection")
		simrt.Sleep(durClass(o.d1))
		s.finish(c, status.Error(codes.Unavailable, "no connection"))
		return
	}
	s.beginRPC(c)
	simrt.Sleep(durClass(o.d1))
	s.handle(c, &gstats.OutHeader{Client: true, FullMethod: c.method})
	deliver := func(name string, delay int64) *simrt.Task {
		md := out.Copy()
		raw := append([]byte(nil), raw...)
		has := hadTags
		return s.spawn(name, func() {
			simrt.Sleep(delay)
			s.serve(c, o, depth, md, raw, has)
		})
	}
	var st *simrt.Task
	switch o.mode {
	case rgLost:
		h.Fault("rpc lost")
	case rgLate:
		h.Fault("rpc delivered late")
		deliver(sf("server%d", c.id), durClass(o.d2)*4)
	case rgDuplicate:
		h.Fault("rpc delivered twice")
		st = deliver(sf("server%d", c.id), durClass(o.d2))
		deliver(sf("dup%d", c.id), durClass(o.d3))
	default:
		st = deliver(sf("server%d", c.id), durClass(o.d2))
	}
	if o.mode == rgCancel {
		h.Fault("rpc cancelled")
		s.spawn(sf("cancel%d", c.id), func() {
			simrt.Sleep(durClass(o.d3))
			s.finish(c, status.Error(codes.Canceled, "context canceled"))
		})
	}
	err := rgError(o.status, c.id)
	nsend, nrecv := o.nsend, o.nrecv
	if o.big == 1 && o.nsend == 7 {
		nsend = 150
	}
	switch o.shape {
	case 0: // unary
		s.payload(c, true, o.big)
		if st != nil && o.mode != rgCancel {
			st.Join(int64(h.HangLimit()))
		} else {
			simrt.Sleep(durClass(o.d3))
		}
		s.handle(c, &gstats.InHeader{Client: true})
		if err == nil {
			s.payload(c, false, o.big)
		}
		s.handle(c, &gstats.InTrailer{Client: true})
	case 1: // one goroutine
		for i := 0; i < nsend || i < nrecv; i++ {
			if i < nsend {
				s.payload(c, true, o.big)
			}
			if i < nrecv {
				s.payload(c, false, o.big)
			}
		}
	default: // sending and receiving at once
		t := s.spawn(sf("sender%d", c.id), func() {
			for i := 0; i < nsend; i++ {
				s.payload(c, true, o.big)
				if o.early == 1 {
					simrt.Sleep(durClass(o.d3))
				}
			}
		})
		for i := 0; i < nrecv; i++ {
			s.payload(c, false, o.big)
		}
		if o.shape == 2 {
			t.Join(int64(h.HangLimit()))
		}
	}
	s.finish(c, err)
}

// serve runs an RPC on the server.
func (s *rgSim) serve(c *rgSide, o rgOp, depth int, md metadata.MD, raw []byte, hasTags bool) {
	h := s.h
	d := &rgSide{id: len(s.sides), method: c.method}
	s.sides = append(s.sides, d)
	tb := md["grpc-trace-bin"][0]
	if o.damage != 0 {
		tb, raw, hasTags = s.damage(o, tb, raw, hasTags)
	}
	delete(md, "grpc-trace-bin")
	if tb != "missing" {
		md["grpc-trace-bin"] = []string{tb}
	}
	ctx := context.Background()
	if s.h.K("conn") != 0 { // the connection's context carries something
		ctx, _ = tag.New(ctx, tag.Insert(rgTagB, "conn"))
	}
	if hasTags {
		md["grpc-tags-bin"] = []string{string(raw)}
	}
	ctx, d.cancel = context.WithCancel(metadata.NewIncomingContext(ctx, md))
	defer d.cancel()
	d.gone = (o.d1+o.d3)%3 == 0
	if hasTags {
		ctx = gstats.SetIncomingTags(ctx, raw)
	}
	want, okTags := map[string]string{}, true
	if hasTags {
		want, okTags = rgDecode(raw)
	}
	if !okTags {
		want = map[string]string{}
	}
	known := map[string]string{}
	for name, v := range want {
		known[name] = v
		if k, err := tag.NewKey(name); err == nil { // damage makes new names
			s.addKey(k)
		}
	}
	setTag(known, "grpc_server_method", strings.TrimLeft(d.method, "/"))
	sc, okTrace := rgParse([]byte(tb))
	before := sp(md)
	d.tagged = begin("tag", d.id)
	sctx := s.server.TagRPC(ctx, &gstats.RPCTagInfo{FullMethodName: d.method})
	d.tagged.end("tagged")
	d.ctx = sctx
	d.tags = s.tagsOf(sctx)
	h.Check("C17", sp(md) == before, "metadata-changed", "the server's metadata was changed")
	h.Check("C17", rgSameTags(d.tags, known), "tags", "RPC %d of call %d has tags %v; sent (and intact) were %v", d.id, c.id, d.tags, known)
	d.sc = trace.FromContext(sctx).SpanContext()
	if !h.Check("C16", d.sc.SpanID != (trace.SpanID{}) && s.bySpan[d.sc.SpanID] == nil, "no-server-span", "no new span for RPC %d", d.id) {
		return
	}
	s.bySpan[d.sc.SpanID] = d
	if o.damage == 0 {
		h.Check("C17", okTrace && sc.SpanID == c.sc.SpanID, "caller", "RPC %d arrived with another call's trace", d.id)
	}
	switch {
	case okTrace && h.K("public") == 0:
		d.parent = sc
		h.Check("C17", d.sc.TraceID == sc.TraceID, "trace-broken", "server span %d is of trace %x, its client span of %x", d.id, d.sc.TraceID[:], sc.TraceID[:])
	default:
		if okTrace {
			d.link = sc
		}
		for _, x := range s.sides {
			if x != d && x.sc.TraceID == d.sc.TraceID {
				h.Bad("C17", "trace-not-new", "server span %d should start a trace but has that of span %d", d.id, x.id)
				break
			}
		}
	}
	h.Check("C17", d.sc.IsSampled() == s.sampler("ssampler", d.method, d.parent), "sampling", "server span %d is sampled: %v; its parent: %v", d.id, d.sc.IsSampled(), d.parent.IsSampled())
	s.handle(d, &gstats.InHeader{FullMethod: d.method})
	if o.noBegin == 1 { // no such method: the server says nothing more
		return
	}
	s.beginRPC(d)
	err := rgError(o.sstatus, d.id)
	var t *simrt.Task
	if o.shape >= 2 && o.ssend > 0 {
		t = s.spawn(sf("ssender%d", d.id), func() {
			for i := 0; i < o.ssend; i++ {
				s.payload(d, true, o.big)
				if o.early == 2 {
					simrt.Sleep(durClass(o.d2))
				}
			}
		})
	}
	nrecv := o.srecv
	if o.shape == 0 {
		nrecv = 1
	}
	for i := 0; i < nrecv; i++ {
		s.payload(d, false, o.big)
	}
	if o.nested > 0 && depth < 2 && s.calls < 14 {
		s.nested(sctx, md, o, depth)
	}
	simrt.Sleep(durClass(o.d3))
	if o.shape < 2 && err == nil {
		s.handle(d, &gstats.OutHeader{})
		s.payload(d, true, o.big)
	}
	if t != nil && o.early != 3 {
		t.Join(int64(h.HangLimit()))
	}
	s.handle(d, &gstats.OutTrailer{})
	s.finish(d, err)
}

// nested makes calls from a handler.
func (s *rgSim) nested(ctx context.Context, md metadata.MD, o rgOp, depth int) {
	n := o
	n.damage, n.mode, n.method, n.shared = 0, rgNormal, (o.method+1)%4, 0
	n.nested = o.nested - 1
	if o.fwd == 1 { // a proxy that passes on what metadata it got
		fm := md.Copy()
		delete(fm, "grpc-tags-bin")
		if v := fm["grpc-trace-bin"]; (o.d1+o.d2)%3 == 0 && len(v) > 0 { // what it got, it got twice
			fm["grpc-trace-bin"] = append(v, v...)
		}
		ctx = metadata.NewOutgoingContext(ctx, fm)
		s.h.Probe("metadata forwarded")
	}
	if o.nested == 3 {
		n.nested = 0
		n2 := n
		n2.method = (o.method + 2) % 4
		t := s.spawn(sf("nested%d", len(s.sides)), func() { s.call(ctx, n2, depth+1) })
		s.call(ctx, n, depth+1)
		t.Join(int64(s.h.HangLimit()))
		return
	}
	s.call(ctx, n, depth+1)
}

// damage is what the network does to metadata.
func (s *rgSim) damage(o rgOp, tb string, raw []byte, has bool) (string, []byte, bool) {
	s.h.Fault("metadata damaged")
	b := []byte(tb)
	k := o.darg
	switch o.damage {
	case 1:
		return "missing", raw, has
	case 2:
		b = b[:k%len(b)]
	case 3:
		b[k%len(b)] ^= 1 << (k % 8)
	case 4: // from another system
		b = []byte("00-0102030405060708090a0b0c0d0e0f10-0102030405060708-01")
	case 5:
		for i := 2; i < 18; i++ {
			b[i] = 0
		}
	case 6:
		for i := 19; i < 27; i++ {
			b[i] = 0
		}
	case 7:
		b = append(b, 3, 1, 2, 3)
	case 8:
		b = nil
	case 9:
		return tb, nil, false
	case 10:
		if len(raw) > 0 {
			raw = raw[:k%len(raw)]
		}
	case 11:
		if len(raw) > 0 {
			raw[k%len(raw)] ^= 1 << (k % 8)
		}
	case 12: // a length beyond everything
		raw = append(append([]byte(nil), raw...), 0)
		if len(raw) == 1 {
			raw = append(raw, 0)
		}
		raw = binary.AppendUvarint(raw, []uint64{math.MaxUint64, 1 << 63, 1<<63 - 1, math.MaxUint64 - 30, 1 << 40, math.MaxUint32, 300, 200}[k%8])
		raw = append(raw, "key"...)
		has = true
	case 13:
		raw = append([]byte{1}, raw...)
		has = true
	case 14:
		raw = append(append([]byte(nil), raw...), byte(k))
		has = true
	case 15:
		raw = []byte{0, 0, byte(k % 6), 'r', 'p', 'c', '_', 'a', 1, byte(k * 4), 0, 5, 'r', 'p', 'c', '_', 'a', 1, 'z'}
		has = true
	}
	return string(b), raw, has
}

type rgExporter struct{ s *rgSim }

func (e rgExporter) ExportSpan(sd *trace.SpanData) {
	simrt.Log("export", nil)
	e.s.exported = append(e.s.exported, sd)
}

func (s *rgSim) setup() bool {
	h := s.h
	s.base = newClockBase()
	s.bySpan = map[trace.SpanID]*rgSide{}
	s.keys = []tag.Key{ocgrpc.KeyClientMethod, ocgrpc.KeyClientStatus, ocgrpc.KeyServerMethod, ocgrpc.KeyServerStatus, rgTagA, rgTagB, rgTagC}
	s.firstMore = len(s.keys)
	for i := int64(0); i < h.K("more"); i++ {
		s.keys = append(s.keys, tag.MustNewKey(sf("more%d", i)))
	}
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.ProbabilitySampler(0)})
	trace.RegisterExporter(rgExporter{s})
	sampler := func(k int64) trace.Sampler {
		switch k {
		case 1:
			return trace.AlwaysSample()
		case 2:
			return trace.NeverSample()
		}
		return nil
	}
	s.client = &ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: sampler(h.K("csampler"))}}
	s.server = &ocgrpc.ServerHandler{StartOptions: trace.StartOptions{Sampler: sampler(h.K("ssampler"))}, IsPublicEndpoint: h.K("public") != 0}
	s.shared = metadata.NewOutgoingContext(context.Background(), metadata.Pairs("x-app", "1"))
	for i := int64(0); i < h.K("pairs"); i++ {
		s.shared = metadata.AppendToOutgoingContext(s.shared, "x-more", sf("v%d", i))
	}
	s.shared, _ = tag.New(s.shared, tag.Insert(rgTagA, "shared"), tag.Insert(rgTagC, "local", tag.WithTTL(tag.TTLNoPropagation)))
	return true
}

func (s *rgSim) run() {
	h := s.h
	s.setup()
	s.scale = int(max(1, h.K("scale")))
	for _, m := range []stats.Measure{
		ocgrpc.ClientSentMessagesPerRPC, ocgrpc.ClientSentBytesPerRPC, ocgrpc.ClientReceivedMessagesPerRPC, ocgrpc.ClientReceivedBytesPerRPC, ocgrpc.ClientRoundtripLatency, ocgrpc.ClientStartedRPCs,
		ocgrpc.ServerSentMessagesPerRPC, ocgrpc.ServerSentBytesPerRPC, ocgrpc.ServerReceivedMessagesPerRPC, ocgrpc.ServerReceivedBytesPerRPC, ocgrpc.ServerLatency, ocgrpc.ServerStartedRPCs,
	} {
		s.views = append(s.views, &view.View{Name: "v:" + m.Name(), Measure: m, Aggregation: view.Distribution(), TagKeys: append([]tag.Key(nil), s.keys[:s.firstMore]...)})
	}
	if h.K("defviews") != 0 {
		s.views = append(s.views, ocgrpc.ClientSentBytesPerRPCView, ocgrpc.ClientReceivedBytesPerRPCView, ocgrpc.ClientRoundtripLatencyView, ocgrpc.ClientCompletedRPCsView, ocgrpc.ClientStartedRPCsView, ocgrpc.ClientSentMessagesPerRPCView, ocgrpc.ClientReceivedMessagesPerRPCView, ocgrpc.ClientServerLatencyView,
			ocgrpc.ServerReceivedBytesPerRPCView, ocgrpc.ServerSentBytesPerRPCView, ocgrpc.ServerLatencyView, ocgrpc.ServerCompletedRPCsView, ocgrpc.ServerStartedRPCsView, ocgrpc.ServerReceivedMessagesPerRPCView, ocgrpc.ServerSentMessagesPerRPCView)
	}
	view.SetReportingPeriod(vpIdle) // nothing is exported
	if err := view.Register(s.views...); err != nil {
		h.Bad("C16", "register", "%v", err)
		return
	}
	if !h.RunClients("C16", h.HangLimit(), s.clientOp) {
		return
	}
	for i := 0; i < len(s.tasks); i++ {
		if !h.JoinAll("C16", h.HangLimit(), s.tasks[i:i+1]) {
			return
		}
	}
	s.judge()
}

func (s *rgSim) clientOp(c int, op Op) {
	switch op.K {
	case "rpc":
		var o rgOp
		o.decode(op.A, op.B)
		ctx := context.Background()
		if o.shared == 1 {
			ctx = s.shared
		} else {
			var ms []tag.Mutator
			if o.tags&1 != 0 {
				v := []string{"", "one", "two", strings.Repeat("long", 63)}[len(s.sides)%4]
				ms = append(ms, tag.Insert(rgTagA, v))
			}
			if o.tags&2 != 0 {
				ms = append(ms, tag.Insert(rgTagB, sf("b%d", c)))
			}
			if o.tags&4 != 0 {
				ms = append(ms, tag.Insert(rgTagC, "local", tag.WithTTL(tag.TTLNoPropagation)))
			}
			for i := int64(0); i < s.h.K("more"); i++ { // many tags
				if k := s.keys[s.firstMore+int(i)]; (i+int64(o.tags))%5 > 0 {
					ms = append(ms, tag.Insert(k, strings.Repeat("m", int(i*31%256))))
				}
			}
			if ms != nil {
				ctx, _ = tag.New(ctx, ms...)
			}
		}
		started := func(*trace.Span) {}
		if s.caller != nil && o.parent > 0 && o.parent <= 3 {
			started = s.caller()
		}
		switch o.parent {
		case 1:
			ctx, _ = trace.StartSpan(ctx, "caller", trace.WithSampler(trace.AlwaysSample()))
		case 2:
			ctx, _ = trace.StartSpan(ctx, "caller", trace.WithSampler(trace.NeverSample()))
		case 3:
			ctx, _ = trace.StartSpanWithRemoteParent(ctx, "caller", trace.SpanContext{TraceID: trace.TraceID{0xee, byte(s.calls)}, SpanID: trace.SpanID{1}, TraceOptions: 3})
		}
		started(trace.FromContext(ctx))
		s.call(ctx, o, 0)
	case "sleep":
		simrt.Sleep(op.A)
	case "jump":
		s.h.Fault("wall clock jump")
		simrt.JumpWall(op.A)
	}
}

// ---------------------------------------------------------------- oracle

// totals bounds what a side counts.
func (r *rgSide) totals(sent, bytes bool) (lo, hi float64) {
	for _, e := range r.evs {
		if e.sent != sent {
			continue
		}
		x := 1.0
		if bytes {
			x = float64(e.n)
		}
		if e.ret < r.ended.inv {
			lo += x
		}
		if e.inv < r.ended.ret {
			hi += x
		}
	}
	return
}

func (s *rgSim) judge() {
	if simrt.Race { // only races are looked for
		return
	}
	h := s.h
	for _, sd := range s.exported {
		r := s.bySpan[sd.SpanID]
		if r == nil {
			h.Check("C16", sd.Name == "caller", "unknown-span", "a span was exported that belongs to no RPC: %s", dumpSpan(sd))
			continue
		}
		r.exports = append(r.exports, sd)
	}
	for _, r := range s.sides {
		s.judgeSpan(r)
	}
	view.Find("")
	for _, v := range s.views {
		s.judgeView(v)
	}
}

func (s *rgSim) judgeSpan(r *rgSide) {
	h := s.h
	if r.ended == nil || !r.sc.IsSampled() {
		h.Check("C16", len(r.exports) == 0, "span-unended", "the span of RPC %d was exported (sampled %v, ended %v)", r.id, r.sc.IsSampled(), r.ended != nil)
		return
	}
	if !h.Check("C16", len(r.exports) == 1, "span-count", "RPC %d gave %d spans", r.id, len(r.exports)) {
		return
	}
	sd := r.exports[0]
	name := strings.ReplaceAll(r.method[1:], "/", ".")
	kind := trace.SpanKindServer
	if r.client {
		kind = trace.SpanKindClient
	}
	h.Check("C16", sd.Name == name && sd.SpanKind == kind, "name-kind", "span %d is %q of kind %d", r.id, sd.Name, sd.SpanKind)
	want := map[string]any{"Client": r.client, "FailFast": r.failFast}
	h.Check("C16", sp(sd.Attributes) == sp(want), "attributes", "span %d has attributes %v; want %v", r.id, sd.Attributes, want)
	var st trace.Status
	if r.err != nil {
		x, _ := status.FromError(r.err)
		st = trace.Status{Code: int32(x.Code()), Message: x.Message()}
	}
	h.Check("C16", sd.Status == st, "status", "span %d has status %v; the RPC ended with %v", r.id, sd.Status, r.err)
	h.Check("C17", sd.ParentSpanID == r.parent.SpanID && sd.HasRemoteParent == (!r.client && r.parent.SpanID != trace.SpanID{}), "parent", "span %d has parent %x (remote %v); want %x", r.id, sd.ParentSpanID[:], sd.HasRemoteParent, r.parent.SpanID[:])
	if r.link.SpanID != (trace.SpanID{}) {
		ok := len(sd.Links) == 1 && sd.Links[0].TraceID == r.link.TraceID && sd.Links[0].SpanID == r.link.SpanID
		h.Check("C17", ok, "public-link", "span %d of a public endpoint has links %v; its caller is %x", r.id, sd.Links, r.link.SpanID[:])
	} else {
		h.Check("C17", len(sd.Links) == 0, "links", "span %d has links", r.id)
	}
	at := s.base.mono(sd.StartTime)
	dur := int64(sd.EndTime.Sub(sd.StartTime))
	h.Check("C11", at >= r.tagged.t0 && at <= r.tagged.t1 && at+dur >= r.ended.t0 && at+dur <= r.ended.t1, "rpc-span-times", "span %d runs from %d to %d; the RPC from [%d,%d] to [%d,%d]", r.id, at, at+dur, r.tagged.t0, r.tagged.t1, r.ended.t0, r.ended.t1)
	s.judgeMessages(r, sd)
}

// judgeMessages finds each of the span's message events among the messages
// there were, in an order that fits them.
func (s *rgSim) judgeMessages(r *rgSide, sd *trace.SpanData) {
	h := s.h
	must, may := 0, 0
	for _, e := range r.evs {
		if e.ret < r.ended.inv {
			must++
		}
		if e.inv < r.ended.ret {
			may++
		}
	}
	n := len(sd.MessageEvents) + sd.DroppedMessageEventCount
	if !h.Check("C16", n >= must && n <= may, "message-count", "span %d has %d message events and dropped %d; the RPC had between %d and %d", r.id, len(sd.MessageEvents), sd.DroppedMessageEventCount, must, may) {
		return
	}
	if sd.DroppedMessageEventCount > 0 {
		h.Check("C16", len(sd.MessageEvents) == trace.DefaultMaxMessageEventsPerSpan, "message-limit", "span %d kept %d message events of %d", r.id, len(sd.MessageEvents), n)
		return
	}
	used := make([]bool, len(r.evs))
	latest := -1 // no later one may have returned before this began
	for i, m := range sd.MessageEvents {
		found := -1
		for j, e := range r.evs {
			if !used[j] && e.sent == (m.EventType == trace.MessageEventTypeSent) && int64(e.n) == m.UncompressedByteSize && int64(e.wire) == m.CompressedByteSize && e.inv < r.ended.ret {
				if found < 0 || e.inv < r.evs[found].inv {
					found = j
				}
			}
		}
		if !h.Check("C16", found >= 0, "message-unknown", "message event %d of span %d is of no message of the RPC: %+v", i, r.id, m) {
			return
		}
		used[found] = true
		e := r.evs[found]
		if e.n > 0 {
			h.Check("C16", e.ret > latest, "message-order", "message event %d of span %d is out of order", i, r.id)
			if e.inv > latest {
				latest = e.inv
			}
		}
	}
	for j, e := range r.evs {
		if e.ret < r.ended.inv {
			h.Check("C16", used[j], "message-missing", "span %d has no event for a message of %d bytes", r.id, e.n)
		}
	}
}

func (s *rgSim) judgeView(v *view.View) {
	h := s.h
	rows, err := view.RetrieveData(v.Name)
	if err != nil {
		h.Bad("C16", "retrieve", "%v", err)
		return
	}
	measure := v.Measure.Name()
	want := newRecords()
	client := strings.Contains(measure, "/client/")
	for _, r := range s.sides {
		if r.client != client || measure == ocgrpc.ClientServerLatency.Name() {
			continue
		}
		m := strings.TrimLeft(r.method, "/")
		tags := map[string]string{}
		for k, v := range r.tags {
			tags[k] = v
		}
		if client {
			setTag(tags, "grpc_client_method", m)
		} else {
			setTag(tags, "grpc_server_method", m)
		}
		if strings.HasSuffix(measure, "/started_rpcs") {
			if r.begun {
				want.add(v, tags, 1, 1, nil)
			}
			continue
		}
		if r.ended == nil {
			continue
		}
		st := rgStatusName(status.Code(r.err))
		if client {
			tags["grpc_client_status"] = st
		} else {
			tags["grpc_server_status"] = st
		}
		var lo, hi float64
		switch {
		case strings.HasSuffix(measure, "latency"):
			lo, hi = float64(r.ended.t0-r.tagged.t1)/1e6, float64(r.ended.t1-r.tagged.t0)/1e6
		default:
			lo, hi = r.totals(strings.Contains(measure, "/sent_"), strings.Contains(measure, "bytes"))
		}
		want.add(v, tags, lo, hi, &r.sc)
	}
	prop := "C16"
	want.judge(h, prop, v, rows)
}

func genGRPCPlan(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	k := p.Knobs
	k["csampler"] = int64(r.PickW(3, 4, 1))
	k["ssampler"] = int64(r.PickW(5, 2, 1))
	if r.Bool(0.2) {
		k["public"] = 1
	}
	if r.Bool(0.1) {
		k["conn"] = 1
	}
	k["defviews"] = r.I64(0, 1)
	if r.Bool(0.15) {
		k["more"] = r.I64(5, 50)
	}
	if r.Bool(0.15) {
		k["scale"] = 1 << uint(r.Range(10, 28))
	}
	if r.Bool(0.1) {
		k["odd"] = r.I64(1, 2)
	}
	k["pairs"] = r.I64(0, 3)
	jumps := r.Bool(0.3)
	nc := r.Range(1, 3)
	per := r.Range(1, 3)
	if deep {
		per = r.Range(1, 6)
	}
	damages, quiet := r.Bool(0.4), r.Bool(0.4)
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < per; i++ {
			o := genRPC(r, damages, quiet)
			a, b := o.encode()
			ops = append(ops, Op{K: "rpc", A: a, B: b})
			if jumps && r.Bool(0.5) {
				d := r.Dur(time.Millisecond, 1000*time.Hour)
				if r.Bool(0.5) {
					d = -d
				}
				ops = append(ops, Op{K: "jump", A: d})
			}
			if r.Bool(0.1) {
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, time.Second)})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func genRPC(r *Rand, damages, quiet bool) rgOp {
	o := rgOp{
		method: r.Intn(4), parent: r.Intn(4), tags: r.Intn(8), shape: r.PickW(2, 1, 2, 2), nsend: r.Intn(8), nrecv: r.Intn(8), mode: r.PickW(8, 1, 1, 2, 2, 1),
		ff: r.Intn(2), shared: r.PickW(2, 1), status: 0,
		d1: r.PickW(4, 1, 1, 1, 1), d2: r.PickW(3, 1, 1, 1, 1, 1, 1), d3: r.PickW(3, 1, 1, 1, 1, 1, 1, 1), ssend: r.Intn(8), srecv: r.Intn(8), nested: r.PickW(4, 1, 1, 1), fwd: r.PickW(2, 1), early: r.Intn(4),
	}
	if r.Bool(0.3) {
		o.status = r.Intn(25)
	}
	if r.Bool(0.3) {
		o.sstatus = r.Intn(25)
	}
	if r.Bool(0.1) {
		o.noBegin = 1
	}
	if r.Bool(0.1) {
		o.big = 1
	}
	if quiet {
		o.nsend, o.nrecv, o.ssend, o.srecv = o.nsend%3, o.nrecv%3, o.ssend%3, o.srecv%3
	}
	if damages && r.Bool(0.6) {
		o.damage, o.darg = r.Range(1, 15), r.Intn(64)
	}
	return o
}

func init() {
	Register(&Workload{
		Name: "grpc", Props: []string{"C16", "C17", "C11"}, Gen: genGRPCPlan, Weight: 3, MaxYields: 20000000,
		Run:  func(h *H) { (&rgSim{h: h}).run() },
		Stub: []string{"grpc-go's transport and calls (its stats events, metadata and status packages are real)"},
	})
}
