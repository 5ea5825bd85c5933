//go:build go1.23

package harness

import (
	"context"
	fmt "go.opencensus.io/verifsim/simfmt"
	"math"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verifsim/simrt"
	"go.opencensus.io/verifsim/simtime"
)

// The trace workload: clients start, fill and end spans of one pool, so that
// several of them work on one span; exporters come and go; the configuration
// changes; the local span store is resized and queried; the wall clock jumps.

const (
	trSlots = 44
	trNames = 3
	trExps  = 3
)

// mtime is a moment: the simulated clock never jumps.
func mnow() int64 { return simrt.Mono() }

// clockBase converts times with a monotonic reading to moments.
type clockBase struct {
	t time.Time
	m int64
}

func newClockBase() clockBase { return clockBase{simtime.Now(), simrt.Mono()} }

func (b clockBase) mono(t time.Time) int64 { return b.m + int64(t.Sub(b.t)) }

// iv is an operation's interval in events and in time.
type iv struct {
	inv, ret int
	t0, t1   int64
}

func begin(kind string, v any) iv {
	t := mnow()
	return iv{inv: simrt.Log(kind, v), ret: never, t0: t, t1: 1<<63 - 1}
}

func (i *iv) end(kind string) {
	i.ret = simrt.Log(kind, nil)
	i.t1 = mnow()
}

// before reports whether i certainly came before j.
func (i iv) before(j iv) bool { return i.ret < j.inv }

type trItem struct {
	iv
	id    int
	kind  string // attr ann msg link name status child
	attrs []trAttr
	str   string
	sent  bool
	a, b  int64
	code  int32
	withA bool
}

type trAttr struct {
	k string
	v any
}

type trSampler struct {
	id   int
	kind int64 // 1 always 2 never 3 probability 4 alternating
	fn   trace.Sampler
	n    int
	real trace.Sampler
}

type trConsult struct {
	sampler  int
	p        trace.SamplingParameters
	decision bool
}

type trStart struct {
	consults []trConsult
}

type trSpan struct {
	slot     int
	name     string
	kind     int
	start    iv
	sp       *trace.Span
	ctx      context.Context
	sc       trace.SpanContext
	rec      bool
	parent   *trSpan // local parent
	parentSC trace.SpanContext
	remote   bool
	opt      int // id of the sampler given, -1 none
	st       trStart
	items    []*trItem
	ends     []*iv
	exports  []*trExport
	cands    []trCfg // configurations it may have been started under
}

type trExport struct {
	exp  int
	seq  int
	at   int64
	sd   *trace.SpanData
	snap string
}

// trCfg is a configuration as far as the workload sets it.
type trCfg struct {
	sampler                   int
	gen                       int // -1: the built-in one
	attrs, anns, msgs, nlinks int
}

type trCfgOp struct {
	iv
	c trCfg // sampler -1 or a zero limit: left as it was
}

// trQuery is what a look into the span store returned.
type trQuery struct {
	iv
	kind     string // active summary latency error
	name     string
	min, max time.Duration
	code     int32
	sds      []*trace.SpanData
	snaps    []string
	sum      map[string]internal.PerMethodSummary
}

type trSize struct {
	iv
	name          string
	lat, errs     int
	allOverlapped bool
}

type traceStore interface {
	ReportActiveSpans(name string) []*trace.SpanData
	ReportSpansByError(name string, code int32) []*trace.SpanData
	ConfigureBucketSizes(bcs []internal.BucketConfiguration)
	ReportSpansPerMethod() map[string]internal.PerMethodSummary
	ReportSpansByLatency(name string, minLatency, maxLatency time.Duration) []*trace.SpanData
}

type traceSim struct {
	h        *H
	base     clockBase
	slots    [trSlots]*trSpan
	all      []*trSpan
	byID     map[trace.SpanID]*trSpan
	starting map[int]*trStart // per task
	samplers []*trSampler
	cfgs     []*trCfgOp
	exps     [trExps]*trExporter
	eregs    []*expReg
	queries  []*trQuery
	sizes    []*trSize
	store    traceStore
	gens     []*trGen
	genOf    map[trace.SpanID]int
	nitems   int
	jumps    int
	probs    []probDec
	own      int64 // how many spans the exporters may still start
}

type trExporter struct {
	id    int
	ts    *traceSim
	slow  int64
	calls int
}

func (e *trExporter) ExportSpan(sd *trace.SpanData) {
	ts := e.ts
	seq := simrt.Log("export", e.id)
	x := &trExport{exp: e.id, seq: seq, at: mnow(), sd: sd, snap: dumpSpan(sd)}
	if s := ts.byID[sd.SpanID]; s != nil {
		s.exports = append(s.exports, x)
	} else {
		ts.h.Bad("C08", "unknown-span", "a span was exported that was never started: %v", sd.SpanContext)
	}
	// exporters use the library too: they trace what they send, and come and go
	e.calls++
	if n := ts.own; n > 0 && e.calls%2 == 1 {
		ts.own--
		ts.h.Fault("exporter starts spans")
		slot := trSlots - n
		ts.exec(Op{K: "start", A: slot, B: -1, C: 1 + n%2, D: n % trNames})
		ts.exec(Op{K: "attr", A: slot, B: 1})
		ts.exec(Op{K: "end", A: slot})
	}
	if k := ts.h.K("turn"); k > 0 && int64(e.calls) == k {
		ts.h.Fault("exporter unregisters itself")
		ts.doUnregExp(e.id)
		ts.doRegExp((e.id+1)%trExps, 0)
	}
	if e.slow > 0 {
		ts.h.Fault("slow exporter")
		simrt.Sleep(e.slow)
	}
}

func dumpSpan(sd *trace.SpanData) string {
	if simrt.Race {
		return ""
	}
	var b strings.Builder
	fpf(&b, "%x/%x/%d/%v parent %x kind %d name %s start %d end %d", sd.TraceID[:], sd.SpanID[:], sd.TraceOptions, sd.Tracestate != nil, sd.ParentSpanID[:], sd.SpanKind, sd.Name, sd.StartTime.UnixNano(), sd.EndTime.UnixNano())
	fpf(&b, " attrs %v dropped %d", sd.Attributes, sd.DroppedAttributeCount)
	for _, a := range sd.Annotations {
		fpf(&b, " ann %d %s %v", a.Time.UnixNano(), a.Message, a.Attributes)
	}
	for _, m := range sd.MessageEvents {
		fpf(&b, " msg %d %d %d %d %d", m.Time.UnixNano(), m.EventType, m.MessageID, m.UncompressedByteSize, m.CompressedByteSize)
	}
	for _, l := range sd.Links {
		fpf(&b, " link %x %x %d %v", l.TraceID[:], l.SpanID[:], l.Type, l.Attributes)
	}
	fpf(&b, " dropped %d %d %d children %d status %d %s remote %v", sd.DroppedAnnotationCount, sd.DroppedMessageEventCount, sd.DroppedLinkCount, sd.ChildSpanCount, sd.Code, sd.Message, sd.HasRemoteParent)
	return b.String()
}

// trGen is an identifier generator of a configuration.
type trGen struct {
	id int
	n  int
	ts *traceSim
}

func (g *trGen) NewTraceID() [16]byte {
	simrt.Y()
	g.n++
	id := [16]byte{0xcc, byte(g.id), byte(g.n >> 8), byte(g.n), 1}
	simrt.Y()
	return id
}

func (g *trGen) NewSpanID() [8]byte {
	simrt.Y()
	g.n++
	id := [8]byte{0xcc, byte(g.id), byte(g.n >> 8), byte(g.n), 1}
	g.ts.genOf[id] = g.id
	simrt.Y()
	return id
}

var trKeys = []string{"a", "b", "c", "d", "e", "f"}

// sampler makes a logging sampler.
func (ts *traceSim) sampler(kind int64) *trSampler {
	s := &trSampler{id: len(ts.samplers), kind: kind}
	ts.samplers = append(ts.samplers, s)
	switch kind {
	case 1:
		s.real = trace.AlwaysSample()
	case 2:
		s.real = trace.NeverSample()
	case 3:
		s.real = ts.prob(0.5)
	case 5, 6, 7, 8, 9, 10:
		s.real = ts.prob([]float64{0, 0.2, 0.8, 1, -1, math.NaN()}[kind-5])
	default:
		s.real = func(trace.SamplingParameters) trace.SamplingDecision {
			s.n++
			return trace.SamplingDecision{Sample: s.n%2 == 1}
		}
	}
	s.fn = func(p trace.SamplingParameters) trace.SamplingDecision {
		simrt.Y()
		d := s.real(p)
		if st := ts.starting[simrt.CurTask()]; st != nil {
			st.consults = append(st.consults, trConsult{s.id, p, d.Sample})
		} else {
			ts.h.Bad("C10", "sampler-elsewhere", "a sampler was consulted while no span was being started")
		}
		simrt.Y()
		return d
	}
	return s
}

// prob is a probability sampler that is compared with itself: it decides alike
// for a whole trace and samples spans whose parents are sampled.
func (ts *traceSim) prob(f float64) trace.Sampler {
	real := trace.ProbabilitySampler(f)
	return func(p trace.SamplingParameters) trace.SamplingDecision {
		d := real(p)
		ts.h.Check("C10", d.Sample || !p.ParentContext.IsSampled(), "prob-parent", "a probability sampler of %v does not sample a span whose parent is sampled", f)
		if p.ParentContext.IsSampled() {
			return d
		}
		ts.h.Check("C10", d.Sample == (f >= 1) || f > 0 && f < 1, "prob-ends", "a probability sampler of %v decides %v", f, d.Sample)
		for _, o := range ts.probs {
			if o.tid == p.TraceID && o.f == f {
				ts.h.Check("C10", o.d == d.Sample, "prob-trace", "trace %x: probability samplers of %v decide %v and %v", p.TraceID, f, o.d, d.Sample)
			}
		}
		ts.probs = append(ts.probs, probDec{p.TraceID, f, d.Sample})
		return d
	}
}

// fractions samples many traces at some fraction; the chance that a true
// sampler is blamed is below one in 10^11.
func (ts *traceSim) fractions(b int64) {
	rnd := NewRand(uint64(b))
	f := float64(b%19+1) / 20
	sm := trace.ProbabilitySampler(f)
	const n = 400
	k := 0
	for i := 0; i < n; i++ {
		p := trace.SamplingParameters{Name: "x"}
		for j := range p.TraceID {
			p.TraceID[j] = byte(rnd.Intn(256))
		}
		for j := range p.SpanID {
			p.SpanID[j] = byte(rnd.Intn(256))
		}
		d := sm(p).Sample
		if d {
			k++
		}
		p.SpanID[0]++
		p.Name, p.HasRemoteParent = "y", true
		ts.h.Check("C10", sm(p).Sample == d, "prob-trace", "a probability sampler of %v decides differently for two spans of trace %x", f, p.TraceID)
	}
	dev := 7*math.Sqrt(f*(1-f)*n) + 2
	ts.h.Check("C10", math.Abs(float64(k)-f*n) <= dev, "prob-fraction", "a probability sampler of %v samples %d of %d traces", f, k, n)
}

type probDec struct {
	tid trace.TraceID
	f   float64
	d   bool
}

func trName(i int64) string { return []string{"/alpha", "beta", "/gamma.Delta"}[i%trNames] }

func (ts *traceSim) doStart(op Op) {
	slot := int(op.A)
	if ts.slots[slot] != nil {
		return
	}
	s := &trSpan{slot: slot, name: trName(op.D), kind: int(op.D / 16 % 3), opt: -1}
	ts.slots[slot] = s
	var opts []trace.StartOption
	if s.kind != 0 || op.D&256 != 0 {
		opts = append(opts, trace.WithSpanKind(s.kind))
	}
	if op.C > 0 {
		sm := ts.sampler(op.C)
		s.opt = sm.id
		opts = append(opts, trace.WithSampler(sm.fn))
	}
	ctx := context.Background()
	switch {
	case op.B >= 0:
		if p := take(ts.slots[op.B]); p != nil && p.sp != nil {
			s.parent, s.parentSC, ctx = p, p.sc, p.ctx
		}
	case op.B == -2, op.B == -3:
		s.remote = true
		if op.B == -2 {
			s.parentSC = remoteSC(slot, op.D)
		}
		// a span in the context is ignored
		if p := take(ts.slots[(slot+7)%trSlots]); p != nil && p.sp != nil {
			ctx = p.ctx
		}
	default:
		if op.D&512 != 0 {
			ctx = trace.NewContext(ctx, nil)
		}
	}
	me := simrt.CurTask()
	ts.starting[me] = &s.st
	s.start = begin("start", slot)
	ts.all = append(ts.all, s)
	var sp *trace.Span
	if s.remote {
		ctx, sp = trace.StartSpanWithRemoteParent(ctx, s.name, s.parentSC, opts...)
	} else {
		ctx, sp = trace.StartSpan(ctx, s.name, opts...)
	}
	s.start.end("started")
	delete(ts.starting, me)
	s.sc = sp.SpanContext()
	s.rec = sp.IsRecordingEvents()
	ts.h.Check("C10", trace.FromContext(ctx) == sp, "wrong-context", "the context returned by StartSpan holds another span")
	if o := ts.byID[s.sc.SpanID]; o != nil {
		ts.h.Bad("C10", "span-id-reused", "spans %d and %d both have span id %x", o.slot, slot, s.sc.SpanID[:])
	}
	ts.byID[s.sc.SpanID] = s
	s.ctx, s.sp = ctx, sp // from here on others use it
	give(s)
}

func remoteSC(slot int, d int64) trace.SpanContext {
	sc := trace.SpanContext{TraceOptions: trace.TraceOptions(d / 32 % 4)}
	sc.TraceID[0], sc.TraceID[15] = 0xee, byte(slot+1)
	sc.TraceID[1] = byte(d)
	sc.SpanID[7] = byte(slot + 1)
	if d&64 != 0 {
		sc.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "k", Value: sf("v%d", slot)})
	}
	return sc
}

func (ts *traceSim) attrs(mask int64, id int) ([]trace.Attribute, []trAttr) {
	var as []trace.Attribute
	var rs []trAttr
	for i := 0; i < 4; i++ {
		k := mask >> uint(4*i) & 15
		if k == 0 {
			break
		}
		key := trKeys[int(k-1)%len(trKeys)]
		v := int64(id*10 + i)
		switch v % 4 {
		case 0:
			as, rs = append(as, trace.Int64Attribute(key, v)), append(rs, trAttr{key, v})
		case 1:
			as, rs = append(as, trace.StringAttribute(key, sf("s%d", v))), append(rs, trAttr{key, sf("s%d", v)})
		case 2:
			as, rs = append(as, trace.Float64Attribute(key, float64(v)+.5)), append(rs, trAttr{key, float64(v) + .5})
		case 3:
			as, rs = append(as, trace.BoolAttribute(key, v%8 == 3)), append(rs, trAttr{key, v%8 == 3})
		}
	}
	return as, rs
}

func attrMap(rs []trAttr) map[string]any {
	m := map[string]any{}
	for _, a := range rs {
		m[a.k] = a.v
	}
	return m
}

func (ts *traceSim) exec(op Op) {
	var s *trSpan
	switch op.K {
	case "attr", "ann", "annf", "msgs", "msgr", "link", "name", "status", "end", "str":
		s = take(ts.slots[op.A%trSlots])
		if s == nil || s.sp == nil {
			return
		}
	}
	item := func(kind string) *trItem {
		ts.nitems++
		it := &trItem{kind: kind, id: ts.nitems}
		it.iv = begin(kind, op.A)
		s.items = append(s.items, it)
		return it
	}
	switch op.K {
	case "start":
		ts.doStart(op)
	case "attr":
		it := item("attr")
		as, rs := ts.attrs(op.B, it.id)
		it.attrs = rs
		s.sp.AddAttributes(as...)
		it.end("attr done")
		for i := range as { // the caller may reuse its slice
			as[i] = trace.StringAttribute("reused", "x")
		}
	case "ann", "annf":
		it := item("ann")
		as, rs := ts.attrs(op.B, it.id)
		it.attrs = rs
		if op.K == "ann" {
			it.str = sf("ann%d", it.id)
			s.sp.Annotate(as, it.str)
		} else {
			it.str = sf("ann%d fmt %d", it.id, op.B)
			s.sp.Annotatef(as, "ann%d fmt %d", it.id, op.B)
		}
		it.end("ann done")
		for i := range as {
			as[i] = trace.StringAttribute("reused", "x")
		}
	case "msgs", "msgr":
		it := item("msg")
		it.sent, it.a, it.b = op.K == "msgs", op.B, op.C
		if it.sent {
			s.sp.AddMessageSendEvent(int64(it.id), op.B, op.C)
		} else {
			s.sp.AddMessageReceiveEvent(int64(it.id), op.B, op.C)
		}
		it.end("msg done")
	case "link":
		it := item("link")
		l := trace.Link{Type: trace.LinkType(op.B % 3)}
		l.TraceID[0], l.SpanID[0], l.SpanID[1] = 9, byte(it.id), byte(it.id>>8)
		if op.B&4 != 0 {
			l.Attributes = map[string]any{"l": int64(it.id)}
			it.withA = true
		}
		it.a = op.B % 3
		s.sp.AddLink(l)
		it.end("link done")
		if l.Attributes != nil { // and its map
			l.Attributes["l"] = int64(-1)
		}
	case "name":
		it := item("name")
		it.str = sf("renamed%d", it.id)
		if it.id%5 == 0 {
			it.str = ""
		}
		s.sp.SetName(it.str)
		it.end("name done")
		_ = s.sp.String()
	case "status":
		it := item("status")
		it.code, it.str = ts.code(op.B), sf("status%d", it.id)
		s.sp.SetStatus(trace.Status{Code: it.code, Message: it.str})
		it.end("status done")
	case "str":
		str := s.sp.String()
		ts.h.Check("C08", strings.Contains(str, sf("%x", s.sc.SpanID[:])), "string", "String of span %d is %q", s.slot, str)
	case "end":
		e := begin("end", op.A)
		p := &e
		s.ends = append(s.ends, p)
		s.sp.End()
		p.end("ended")
	case "fill": // more than any limit of the small ones
		for i := int64(0); i < 5; i++ {
			ts.exec(Op{K: "ann", A: op.A, B: i})
			ts.exec(Op{K: "msgs", A: op.A, B: i})
			ts.exec(Op{K: "link", A: op.A, B: i})
			ts.exec(Op{K: "attr", A: op.A, B: i + 1})
		}
	case "nil":
		var n *trace.Span
		ctx := context.Background()
		n = trace.FromContext(ctx)
		n.AddAttributes(trace.BoolAttribute("x", true))
		n.Annotate(nil, "x")
		n.Annotatef(nil, "%d", 1)
		n.AddLink(trace.Link{})
		n.AddMessageReceiveEvent(1, 2, 3)
		n.AddMessageSendEvent(1, 2, 3)
		n.SetName("x")
		n.SetStatus(trace.Status{Code: 1})
		_ = n.String()
		n.End()
		ts.h.Check("C08", n == nil && n.SpanContext() == trace.SpanContext{} && !n.IsRecordingEvents(), "nil-span", "a nil span is not inert")
	case "exp":
		ts.doRegExp(int(op.A), op.B)
	case "unexp":
		ts.doUnregExp(int(op.A))
	case "cfg":
		ts.doCfg(op)
	case "size":
		z := &trSize{name: trName(op.A), lat: int(op.B), errs: int(op.C)}
		z.iv = begin("bucket sizes", nil)
		ts.sizes = append(ts.sizes, z)
		ts.store.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: z.name, MaxRequestsSucceeded: z.lat, MaxRequestsErrors: z.errs}})
		z.end("bucket sizes done")
	case "active", "summary", "latency", "error":
		ts.doQuery(op)
	case "fraction":
		ts.fractions(op.A)
	case "sleep":
		simrt.Sleep(op.A)
	case "jump":
		ts.h.Fault("wall clock jump")
		ts.jumps++
		simrt.JumpWall(op.A)
	}
}

func (ts *traceSim) lastExp(e int) *expReg {
	for i := len(ts.eregs) - 1; i >= 0; i-- {
		if ts.eregs[i].exp == e {
			return ts.eregs[i]
		}
	}
	return nil
}

func (ts *traceSim) doRegExp(e int, slow int64) {
	if l := ts.lastExp(e); l != nil && l.unRet == never {
		if l.regRet != never && l.unInv == never { // registered already: nothing changes
			l.again++
			simrt.Log("register exporter again", e)
			trace.RegisterExporter(ts.exps[e])
			simrt.Log("register exporter again done", e)
			l.again--
		}
		return
	}
	r := &expReg{exp: e, regRet: never, unInv: never, unRet: never}
	ts.exps[e].slow = slow
	r.regInv = simrt.Log("register exporter", e)
	ts.eregs = append(ts.eregs, r)
	trace.RegisterExporter(ts.exps[e])
	r.regRet = simrt.Log("register exporter done", e)
}

func (ts *traceSim) doUnregExp(e int) {
	r := ts.lastExp(e)
	if r == nil { // was never registered: nothing happens
		trace.UnregisterExporter(&trExporter{id: e, ts: ts})
		return
	}
	if r.unInv != never || r.regRet == never || r.again > 0 {
		return
	}
	r.unInv = simrt.Log("unregister exporter", e)
	trace.UnregisterExporter(ts.exps[e])
	r.unRet = simrt.Log("unregister exporter done", e)
}

// doCfg: A sampler kind, B packed limits (4 bits each; 0 leaves it alone), C 1
// for a new identifier generator.
func (ts *traceSim) doCfg(op Op) {
	c := &trCfgOp{c: trCfg{sampler: -1, gen: -1}}
	cfg := trace.Config{}
	if op.A > 0 {
		sm := ts.sampler(op.A)
		c.c.sampler = sm.id
		cfg.DefaultSampler = sm.fn
	}
	if op.C > 0 {
		g := &trGen{id: len(ts.gens), ts: ts}
		ts.gens = append(ts.gens, g)
		c.c.gen = g.id
		cfg.IDGenerator = g
	}
	lim := func(i uint) int { return int(op.B >> (4 * i) & 15) }
	c.c.attrs, c.c.anns, c.c.msgs, c.c.nlinks = lim(0), lim(1), lim(2), lim(3)
	cfg.MaxAttributesPerSpan, cfg.MaxAnnotationEventsPerSpan, cfg.MaxMessageEventsPerSpan, cfg.MaxLinksPerSpan = c.c.attrs, c.c.anns, c.c.msgs, c.c.nlinks
	c.iv = begin("configure", nil)
	ts.cfgs = append(ts.cfgs, c)
	trace.ApplyConfig(cfg)
	c.end("configured")
}

// code is the status code that an operation means by b.
func (ts *traceSim) code(b int64) int32 {
	if ts.h.K("codes") != 0 && b > 0 && b < 4 {
		return []int32{-1, 1<<31 - 1, -1 << 31}[b-1]
	}
	return int32(b)
}

func (ts *traceSim) doQuery(op Op) {
	q := &trQuery{kind: op.K, name: trName(op.A)}
	if op.K == "latency" {
		q.min, q.max = latRange(op.B)
	}
	q.code = ts.code(op.B)
	q.iv = begin(op.K, nil)
	switch op.K {
	case "active":
		q.sds = ts.store.ReportActiveSpans(q.name)
	case "summary":
		q.sum = ts.store.ReportSpansPerMethod()
	case "latency":
		q.sds = ts.store.ReportSpansByLatency(q.name, q.min, q.max)
	case "error":
		q.sds = ts.store.ReportSpansByError(q.name, q.code)
	}
	q.end(op.K + " done")
	for _, sd := range q.sds {
		q.snaps = append(q.snaps, dumpSpan(sd))
	}
	ts.queries = append(ts.queries, q)
}

const trFailed = 1 << 40

var latBounds = []time.Duration{0, 10 * time.Microsecond, 100 * time.Microsecond, time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, time.Second, 10 * time.Second, time.Minute}

// latRange i is latency range i, or everything for 9; from 16 on it is from a
// third of range i to a third of range i+j, of i = B%16 and j = B/16-1.
func latRange(i int64) (time.Duration, time.Duration) {
	if i >= 16 {
		switch i / 16 {
		case 5:
			return latThird(i % 16), 0 // no upper bound
		case 6: // up to a bound itself
			return 0, latBounds[max(i%16, 1)]
		case 7:
			return latBounds[max(i%16, 1)], latBounds[max(i%16, 1)]
		}
		return latThird(i % 16), latThird(i%16 + i/16 - 1)
	}
	if i >= int64(len(latBounds)) {
		return 0, 0
	}
	if i == int64(len(latBounds))-1 {
		return latBounds[i], 0
	}
	return latBounds[i], latBounds[i+1] - 1
}

func latThird(i int64) time.Duration {
	if i+1 >= int64(len(latBounds)) {
		return 3 * latBounds[len(latBounds)-1]
	}
	return latBounds[i] + (latBounds[i+1]-latBounds[i])/3
}

func latIndex(d int64) int {
	i := 0
	for i+1 < len(latBounds) && d >= int64(latBounds[i+1]) {
		i++
	}
	return i
}

// ---------------------------------------------------------------- oracle

// firstEnd and lastEnd bound when the span ended: the snapshot is taken after
// the first was invoked and, if any returned, the span has ended by then.
func (s *trSpan) firstEndInv() int {
	m := never
	for _, e := range s.ends {
		m = min(m, e.inv)
	}
	return m
}

func (s *trSpan) endTimes() (lo, hi int64) {
	lo, hi = 1<<63-1, -1
	for _, e := range s.ends {
		lo = min(lo, e.t0)
		hi = max(hi, e.t1)
	}
	return
}

func (s *trSpan) lastEndRet() int {
	m := -1
	for _, e := range s.ends {
		m = max(m, e.ret)
	}
	return m
}

func (s *trSpan) firstEndRet() int {
	m := never
	for _, e := range s.ends {
		m = min(m, e.ret)
	}
	return m
}

func (ts *traceSim) judge() {
	if simrt.Race { // only races are looked for
		return
	}
	ts.judgeConfigs()
	for _, s := range ts.all {
		ts.judgeStart(s)
	}
	ts.judgeTraces()
	for _, s := range ts.all {
		ts.judgeExports(s)
	}
	ts.judgeQueries()
	// what was handed out never changes
	for _, s := range ts.all {
		for _, x := range s.exports {
			now := dumpSpan(x.sd)
			ts.h.Check("C08", now == x.snap, "export-changed", "span %d changed after it was exported:\n%s\n%s", s.slot, x.snap, now)
		}
	}
	for _, q := range ts.queries {
		for i, sd := range q.sds {
			ts.h.Check("C12", dumpSpan(sd) == q.snaps[i], "sample-changed", "data reported for a span changed afterwards:\n%s\n%s", q.snaps[i], dumpSpan(sd))
		}
	}
}

// judgeConfigs works out, for each span, the configurations that were in force
// at some moment of its start in some legal order of the changes.
func (ts *traceSim) judgeConfigs() {
	n := len(ts.cfgs)
	type state struct {
		done int
		c    trCfg
	}
	def := trCfg{-1, -1, trace.DefaultMaxAttributesPerSpan, trace.DefaultMaxAnnotationEventsPerSpan, trace.DefaultMaxMessageEventsPerSpan, trace.DefaultMaxLinksPerSpan}
	seen := map[state]bool{}
	var all []state
	var walk func(st state)
	walk = func(st state) {
		if seen[st] {
			return
		}
		seen[st] = true
		all = append(all, st)
		for i := 0; i < n; i++ {
			if st.done&(1<<uint(i)) != 0 {
				continue
			}
			ok := true
			for j := 0; j < n; j++ {
				if j != i && st.done&(1<<uint(j)) == 0 && ts.cfgs[j].before(ts.cfgs[i].iv) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			c := st.c
			o := ts.cfgs[i].c
			if o.sampler >= 0 {
				c.sampler = o.sampler
			}
			if o.gen >= 0 {
				c.gen = o.gen
			}
			set := func(p *int, v int) {
				if v > 0 {
					*p = v
				}
			}
			set(&c.attrs, o.attrs)
			set(&c.anns, o.anns)
			set(&c.msgs, o.msgs)
			set(&c.nlinks, o.nlinks)
			walk(state{st.done | 1<<uint(i), c})
		}
	}
	walk(state{0, def})
	for _, s := range ts.all {
		if s.sp == nil {
			continue
		}
		dup := map[trCfg]bool{}
		for _, st := range all {
			ok := !dup[st.c]
			for i, c := range ts.cfgs {
				in := st.done&(1<<uint(i)) != 0
				if !in && c.ret < s.start.inv || in && c.inv > s.start.ret {
					ok = false
				}
			}
			if ok {
				dup[st.c] = true
				s.cands = append(s.cands, st.c)
			}
		}
	}
}

func (ts *traceSim) judgeStart(s *trSpan) {
	h := ts.h
	if s.sp == nil {
		return
	}
	hasParent := s.parentSC != trace.SpanContext{}
	h.Check("C10", s.sc.SpanID != trace.SpanID{}, "zero-span-id", "span %d has span id zero", s.slot)
	h.Check("C10", s.sc.TraceID != trace.TraceID{}, "zero-trace-id", "span %d has trace id zero", s.slot)
	if hasParent {
		h.Check("C10", s.sc.TraceID == s.parentSC.TraceID, "trace-id", "span %d has trace id %x, its parent %x", s.slot, s.sc.TraceID[:], s.parentSC.TraceID[:])
	}
	h.Check("C10", s.sc.TraceOptions&^1 == s.parentSC.TraceOptions&^1, "trace-options", "span %d has trace options %x, its parent %x", s.slot, s.sc.TraceOptions, s.parentSC.TraceOptions)
	h.Check("C10", s.sc.Tracestate == s.parentSC.Tracestate, "tracestate", "span %d has another trace-state than its parent", s.slot)
	gen := -1
	if g, ok := ts.genOf[s.sc.SpanID]; ok {
		gen = g
	}
	var gkeep []trCfg
	for _, c := range s.cands {
		if c.gen == gen {
			gkeep = append(gkeep, c)
		}
	}
	if !h.Check("C10", len(gkeep) > 0, "wrong-id-generator", "span %d got its identifier from generator %d, while one of the configurations %s was in force", s.slot, gen, sp(s.cands)) {
		return
	}
	s.cands = gkeep
	if !hasParent {
		tgen := -1
		if s.sc.TraceID[0] == 0xcc && s.sc.TraceID[4] == 1 && s.sc.TraceID[5] == 0 && s.sc.TraceID[6] == 0 && s.sc.TraceID[7] == 0 {
			tgen = int(s.sc.TraceID[1])
		}
		h.Check("C10", tgen == gen, "mixed-id-generators", "span %d got its trace identifier from generator %d and its span identifier from %d", s.slot, tgen, gen)
	}
	sampled := s.sc.IsSampled()
	consults := s.st.consults
	switch {
	case s.opt >= 0:
		if !h.Check("C10", len(consults) == 1 && consults[0].sampler == s.opt, "wrong-sampler", "span %d was given sampler %d; consulted: %s", s.slot, s.opt, sp(consults)) {
			return
		}
	case !hasParent || s.remote:
		var keep []trCfg
		unlogged := false
		for _, c := range s.cands {
			switch {
			case c.sampler < 0: // the built-in default, which is not logged
				if len(consults) == 0 {
					keep = append(keep, c)
					unlogged = true
				}
			case len(consults) == 1 && consults[0].sampler == c.sampler:
				keep = append(keep, c)
			}
		}
		if !h.Check("C10", len(keep) > 0, "wrong-default-sampler", "span %d has no local parent and no sampler of its own; consulted %s, while one of the configurations %s was in force", s.slot, sp(consults), sp(s.cands)) {
			return
		}
		s.cands = keep
		if unlogged {
			// the default sampler samples with a chance of 1 in 10000 and as the parent
			if s.parentSC.IsSampled() {
				h.Check("C10", sampled, "parent-sampled", "span %d: the default sampler ignored that the remote parent is sampled", s.slot)
			}
			return
		}
	default:
		if !h.Check("C10", len(consults) == 0, "sampler-consulted", "span %d has a local parent and no sampler of its own, but a sampler was consulted: %s", s.slot, sp(consults)) {
			return
		}
		h.Check("C10", sampled == s.parentSC.IsSampled(), "parent-decision", "span %d: sampled %v, its local parent %v", s.slot, sampled, s.parentSC.IsSampled())
		return
	}
	c := consults[0]
	h.Check("C10", sampled == c.decision, "decision", "span %d: sampled %v, but its sampler said %v", s.slot, sampled, c.decision)
	h.Check("C10", c.p.ParentContext == s.parentSC && c.p.TraceID == s.sc.TraceID && c.p.SpanID == s.sc.SpanID && c.p.Name == s.name && c.p.HasRemoteParent == s.remote, "sampler-params", "span %d: the sampler was given %s", s.slot, sp(c.p))
	if ts.samplers[c.sampler].kind == 3 && s.parentSC.IsSampled() {
		h.Check("C10", c.decision, "probability-parent", "the probability sampler did not sample a child of a sampled parent")
	}
}

func (ts *traceSim) judgeTraces() {
	roots := map[trace.TraceID]*trSpan{}
	prob := map[trace.TraceID]int{}
	for _, s := range ts.all {
		if s.sp == nil {
			continue
		}
		ts.h.Check("C10", s.rec == (s.sc.IsSampled() || ts.h.K("store") != 0), "recording", "span %d: recording %v, sampled %v, store %d", s.slot, s.rec, s.sc.IsSampled(), ts.h.K("store"))
		if (s.parentSC == trace.SpanContext{}) {
			if o := roots[s.sc.TraceID]; o != nil {
				ts.h.Bad("C10", "trace-id-reused", "root spans %d and %d have the same trace id", o.slot, s.slot)
			}
			roots[s.sc.TraceID] = s
		}
		for _, c := range s.st.consults {
			if ts.samplers[c.sampler].kind == 3 && !c.p.ParentContext.IsSampled() {
				d := 1
				if c.decision {
					d = 2
				}
				prob[c.p.TraceID] |= d
				ts.h.Check("C10", prob[c.p.TraceID] != 3, "probability-consistency", "the probability sampler decided differently within one trace")
			}
		}
	}
}

// window is when a snapshot of a span was taken: what returned before lo is in
// it, what began after hi is not.
type window struct{ lo, hi int }

func (ts *traceSim) judgeExports(s *trSpan) {
	h := ts.h
	if s.sp == nil {
		return
	}
	first := s.firstEndInv()
	lastRet := s.lastEndRet()
	if !s.sc.IsSampled() {
		h.Check("C08", len(s.exports) == 0, "unsampled-exported", "span %d is not sampled but was exported", s.slot)
		return
	}
	if first == never {
		h.Check("C08", len(s.exports) == 0, "unended-exported", "span %d has not ended but was exported", s.slot)
		return
	}
	var n [trExps]int
	for _, x := range s.exports {
		n[x.exp]++
		h.Check("C08", x.seq > first, "exported-early", "span %d was exported at event %d, before it was ended", s.slot, x.seq)
		h.Check("C08", x.seq < lastRet, "exported-late", "span %d was exported at event %d, after all calls of End had returned", s.slot, x.seq)
	}
	if lastRet == never {
		return // an End hung, which is reported as such
	}
	for e := range n {
		must, may := false, false
		for _, r := range ts.eregs {
			if r.exp != e {
				continue
			}
			if r.regRet < first && r.unInv > lastRet {
				must = true
			}
			if r.regInv < lastRet && r.unRet > first {
				may = true
			}
		}
		h.Check("C08", n[e] <= 1, "exported-twice", "span %d was exported %d times to exporter %d", s.slot, n[e], e)
		h.Check("C08", n[e] == 0 || may, "exported-unregistered", "span %d was exported to exporter %d, which was not registered then", s.slot, e)
		h.Check("C08", n[e] == 1 || !must, "not-exported", "span %d ended (events %d-%d) but was not exported to exporter %d", s.slot, first, lastRet, e)
	}
	for i, x := range s.exports {
		if i > 0 {
			h.Check("C08", x.snap == s.exports[0].snap, "exports-differ", "span %d was exported differently:\n%s\n%s", s.slot, s.exports[0].snap, x.snap)
			continue
		}
		ts.judgeData(s, x.sd, window{first, x.seq}, true)
		ts.judgeEnd(s, x.sd, x.at)
	}
}

// judgeEnd checks the end time of an ended span's data, seen at moment seen.
func (ts *traceSim) judgeEnd(s *trSpan, sd *trace.SpanData, seen int64) {
	h := ts.h
	lo, hi := s.endTimes()
	if seen < hi {
		hi = seen
	}
	at := ts.base.mono(sd.StartTime)
	d := int64(sd.EndTime.Sub(sd.StartTime))
	h.Check("C11", d >= lo-at && d <= hi-at, "duration", "span %d started at %d and ended between %d and %d, but lasted %v (wall clock stepped %d times)", s.slot, at, lo, hi, time.Duration(d), ts.jumps)
	wall := sd.EndTime.Round(0).Sub(sd.StartTime.Round(0))
	h.Check("C11", int64(wall) == d, "end-time", "span %d lasted %v but its end is %v after its start (wall clock stepped %d times)", s.slot, time.Duration(d), wall, ts.jumps)
}

// judgeData checks a snapshot of a span's data.
func (ts *traceSim) judgeData(s *trSpan, sd *trace.SpanData, w window, ended bool) {
	h := ts.h
	h.Check("C08", sd.SpanContext == s.sc, "identity", "span %d: data has context %v, span %v", s.slot, sd.SpanContext, s.sc)
	h.Check("C08", sd.ParentSpanID == s.parentSC.SpanID && sd.HasRemoteParent == s.remote, "parent", "span %d: parent %x remote %v; want %x %v", s.slot, sd.ParentSpanID[:], sd.HasRemoteParent, s.parentSC.SpanID[:], s.remote)
	h.Check("C08", sd.SpanKind == s.kind, "kind", "span %d: kind %d, want %d", s.slot, sd.SpanKind, s.kind)
	st := ts.base.mono(sd.StartTime)
	h.Check("C08", st >= s.start.t0 && st <= s.start.t1, "start-time", "span %d: start time %d, started between %d and %d", s.slot, st, s.start.t0, s.start.t1)
	// name and status: the last that was set
	name := []*trItem{{str: s.name}}
	name[0].ret = -1
	status := []*trItem{{}}
	status[0].ret = -1
	kinds := map[string][]*trItem{}
	for _, it := range s.items {
		switch it.kind {
		case "name":
			name = append(name, it)
		case "status":
			status = append(status, it)
		default:
			kinds[it.kind] = append(kinds[it.kind], it)
		}
	}
	reg := func(ops []*trItem, match func(*trItem) bool) bool {
		for _, o := range ops {
			if o.inv > w.hi || !match(o) {
				continue
			}
			ok := true
			for _, p := range ops {
				if p != o && p.ret < w.lo && o.before(p.iv) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	h.Check("C08", reg(name, func(o *trItem) bool { return o.str == sd.Name }), "name", "span %d: name %q", s.slot, sd.Name)
	h.Check("C08", reg(status, func(o *trItem) bool { return o.code == sd.Code && o.str == sd.Message }), "status", "span %d: status %v", s.slot, sd.Status)
	// children
	lo, hi := 0, 0
	for _, c := range ts.all {
		if c.parent == s {
			if c.start.ret < w.lo {
				lo++
			}
			if c.start.inv < w.hi {
				hi++
			}
		}
	}
	h.Check("C08", sd.ChildSpanCount >= lo && sd.ChildSpanCount <= hi, "children", "span %d: %d children, between %d and %d were started", s.slot, sd.ChildSpanCount, lo, hi)

	// contents against each configuration it may have started under
	var why string
	var whyClass, whyProp string
	for _, c := range s.cands {
		p, cl, det := ts.contents(s, sd, w, c, kinds)
		if p == "" {
			h.Checks += 4
			return
		}
		if why == "" || p == "C08" {
			whyProp, whyClass, why = p, cl, det
		}
	}
	h.Bad(whyProp, whyClass, "span %d: %s", s.slot, why)
	if len(s.cands) > 1 {
		// each limit by itself fits some configuration, but no one of them all
		h.Bad("C10", "config-mixture", "span %d fits none of the configurations in force while it started: %s: %s", s.slot, sp(s.cands), why)
	}
}

func (ts *traceSim) contents(s *trSpan, sd *trace.SpanData, w window, c trCfg, kinds map[string][]*trItem) (prop, class, detail string) {
	if cl, d := ts.attrsOK(sd, kinds["attr"], w, c.attrs); cl != "" {
		p := "C09"
		if cl == "attr-foreign" {
			p = "C08"
		}
		return p, cl, d
	}
	find := func(kind string, match func(*trItem) bool) *trItem {
		for _, it := range kinds[kind] {
			if match(it) {
				return it
			}
		}
		return nil
	}
	var got []*trItem
	for _, a := range sd.Annotations {
		it := find("ann", func(it *trItem) bool { return it.str == a.Message })
		if it == nil {
			return "C08", "foreign-annotation", sf("annotation %q was not made on it", a.Message)
		}
		if len(it.attrs) == 0 && len(a.Attributes) != 0 || sp(a.Attributes) != sp(attrMap(it.attrs)) {
			return "C08", "annotation-attributes", sf("annotation %q has attributes %v, want %v", a.Message, a.Attributes, it.attrs)
		}
		if t := ts.base.mono(a.Time); t < it.t0 || t > it.t1 {
			return "C08", "annotation-time", sf("annotation %q has time %d, made between %d and %d", a.Message, t, it.t0, it.t1)
		}
		got = append(got, it)
	}
	if cl, d := fifoOK(got, kinds["ann"], w, c.anns, sd.DroppedAnnotationCount); cl != "" {
		return fifoProp(cl), "annotations-" + cl, d
	}
	got = nil
	for _, m := range sd.MessageEvents {
		it := find("msg", func(it *trItem) bool { return int64(it.id) == m.MessageID })
		if it == nil {
			return "C08", "foreign-message-event", sf("message event %d was not added to it", m.MessageID)
		}
		if m.UncompressedByteSize != it.a || m.CompressedByteSize != it.b || (m.EventType == trace.MessageEventTypeSent) != it.sent || !it.sent && m.EventType != trace.MessageEventTypeRecv {
			return "C08", "message-event", sf("message event %v, want sent %v sizes %d %d", m, it.sent, it.a, it.b)
		}
		if t := ts.base.mono(m.Time); t < it.t0 || t > it.t1 {
			return "C08", "message-event-time", sf("message event %d has time %d, made between %d and %d", m.MessageID, t, it.t0, it.t1)
		}
		got = append(got, it)
	}
	if cl, d := fifoOK(got, kinds["msg"], w, c.msgs, sd.DroppedMessageEventCount); cl != "" {
		return fifoProp(cl), "message-events-" + cl, d
	}
	got = nil
	for _, l := range sd.Links {
		id := int(l.SpanID[0]) | int(l.SpanID[1])<<8
		it := find("link", func(it *trItem) bool { return it.id == id && l.TraceID[0] == 9 })
		if it == nil {
			return "C08", "foreign-link", sf("link %v was not added to it", l)
		}
		if int64(l.Type) != it.a || it.withA != (len(l.Attributes) == 1) || (it.withA && l.Attributes["l"] != int64(it.id)) {
			return "C08", "link", sf("link %v differs from the one added", l)
		}
		got = append(got, it)
	}
	if cl, d := fifoOK(got, kinds["link"], w, c.nlinks, sd.DroppedLinkCount); cl != "" {
		return fifoProp(cl), "links-" + cl, d
	}
	return "", "", ""
}

func fifoProp(class string) string {
	if class == "order" || class == "duplicate" || class == "future" {
		return "C08"
	}
	return "C09"
}

// fifoOK checks the kept items of a kind: the last limit ones of a legal order
// of all that were added.
func fifoOK(got, all []*trItem, w window, limit, dropped int) (string, string) {
	in := map[*trItem]bool{}
	for i, it := range got {
		if in[it] {
			return "duplicate", sf("item %d is there twice", it.id)
		}
		in[it] = true
		if it.inv > w.hi {
			return "future", sf("item %d, added later, is there", it.id)
		}
		for _, l := range got[i+1:] {
			if l.before(it.iv) {
				return "order", sf("item %d comes before item %d, which was added earlier", it.id, l.id)
			}
		}
	}
	lo, hi := 0, 0
	for _, it := range all {
		if it.inv < w.hi {
			hi++
		}
		sure := in[it] || it.ret < w.lo
		for _, g := range got {
			if it.before(g.iv) {
				sure = true
			}
		}
		if sure {
			lo++
		}
		if in[it] || !sure {
			continue
		}
		// it was dropped (or, if it is not even sure, never added)
		for _, g := range got {
			if g.before(it.iv) {
				return "kept-wrong", sf("item %d was kept but item %d, added after it, was not (limit %d, kept %d, dropped %d)", g.id, it.id, limit, len(got), dropped)
			}
		}
	}
	total := len(got) + dropped
	if len(got) > limit {
		return "over-limit", sf("%d items; the limit is %d", len(got), limit)
	}
	if total < lo || total > hi {
		return "count", sf("%d kept and %d dropped, but between %d and %d were added", len(got), dropped, lo, hi)
	}
	if want := min(total, limit); len(got) != want {
		return "kept-few", sf("%d kept and %d dropped with a limit of %d", len(got), dropped, limit)
	}
	return "", ""
}

// attrsOK looks for a legal order of the attribute calls that leaves what the
// span has.
func (ts *traceSim) attrsOK(sd *trace.SpanData, all []*trItem, w window, limit int) (string, string) {
	var may []*trItem
	for _, it := range all {
		if it.inv < w.hi {
			may = append(may, it)
		}
	}
	if len(sd.Attributes) > limit {
		return "attr-over-limit", sf("%d attributes; the limit is %d", len(sd.Attributes), limit)
	}
	for k, v := range sd.Attributes {
		ok := false
		for _, it := range may {
			for _, a := range it.attrs {
				if a.k == k && a.v == v {
					ok = true
				}
			}
		}
		if !ok {
			return "attr-foreign", sf("attribute %s=%v was not set on it", k, v)
		}
	}
	type lru struct {
		order   []trAttr // oldest first
		dropped int
	}
	match := func(l *lru) bool {
		if len(l.order) != len(sd.Attributes) || l.dropped != sd.DroppedAttributeCount {
			return false
		}
		for _, a := range l.order {
			if sd.Attributes[a.k] != a.v {
				return false
			}
		}
		return true
	}
	nodes := 0
	giveUp := false
	var closest *lru
	var walk func(done int, l lru) bool
	walk = func(done int, l lru) bool {
		nodes++
		if nodes > 4000 {
			giveUp = true
			return true
		}
		complete := true
		for i, it := range may {
			if done&(1<<uint(i)) == 0 && it.ret < w.lo {
				complete = false
			}
		}
		if complete {
			closest = &l
			if match(&l) {
				return true
			}
		}
		for i, it := range may {
			if done&(1<<uint(i)) != 0 {
				continue
			}
			ok := true
			for j, o := range may {
				if j != i && done&(1<<uint(j)) == 0 && o.before(it.iv) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			n := lru{append([]trAttr(nil), l.order...), l.dropped}
			for _, a := range it.attrs {
				for k, o := range n.order {
					if o.k == a.k {
						n.order = append(n.order[:k], n.order[k+1:]...)
						break
					}
				}
				n.order = append(n.order, a)
				if len(n.order) > limit {
					n.order = n.order[1:]
					n.dropped++
				}
			}
			if walk(done|1<<uint(i), n) {
				return true
			}
		}
		return false
	}
	if len(may) > 30 {
		return "", ""
	}
	if walk(0, lru{}) {
		if giveUp {
			simrt.Probe("reached: attribute search gave up")
		}
		return "", ""
	}
	return "attr-lru", sf("attributes %v, dropped %d, with a limit of %d; the calls on it leave %v", sd.Attributes, sd.DroppedAttributeCount, limit, closest)
}

// ---------------------------------------------------------------- store

func (ts *traceSim) judgeQueries() {
	h := ts.h
	stored := h.K("store") != 0
	for _, q := range ts.queries {
		switch q.kind {
		case "active":
			n := map[trace.SpanID]int{}
			for _, sd := range q.sds {
				s := ts.byID[sd.SpanID]
				n[sd.SpanID]++
				if !h.Check("C12", s != nil && s.name == q.name && stored, "active-foreign", "%s reported active under %q", dumpSpan(sd), q.name) {
					continue
				}
				h.Check("C12", n[sd.SpanID] == 1, "active-twice", "span %d reported active twice", s.slot)
				h.Check("C12", s.start.inv < q.ret && s.firstEndRet() > q.inv, "active-ended", "span %d reported active (events %d-%d) but it ended at event %d", s.slot, q.inv, q.ret, s.firstEndRet())
				h.Check("C12", sd.EndTime.IsZero(), "active-end-time", "span %d is active but has an end time", s.slot)
				ts.judgeData(s, sd, window{q.inv, q.ret}, false)
			}
			for _, s := range ts.all {
				if s.sp != nil && stored && s.name == q.name && s.start.ret < q.inv && s.firstEndInv() > q.ret {
					h.Check("C12", n[s.sc.SpanID] == 1, "active-missing", "span %d has started and not ended but is not among the active spans of %q", s.slot, q.name)
				}
			}
		case "summary":
			ts.judgeSummary(q)
		default:
			n := map[trace.SpanID]int{}
			for _, sd := range q.sds {
				s := ts.byID[sd.SpanID]
				n[sd.SpanID]++
				if !h.Check("C12", s != nil && s.name == q.name && stored, "sample-foreign", "%s reported under %q", dumpSpan(sd), q.name) {
					continue
				}
				h.Check("C12", n[sd.SpanID] == 1, "sample-twice", "span %d is in the samples twice", s.slot)
				h.Check("C12", s.firstEndInv() < q.ret, "sample-not-ended", "span %d has not ended but is reported as ended", s.slot)
				lat := sd.EndTime.Sub(sd.StartTime)
				if q.kind == "latency" {
					h.Check("C12", sd.Code == 0, "failed-as-ok", "span %d failed with code %d but is reported by latency", s.slot, sd.Code)
					h.Check("C12", lat >= q.min && (q.max == 0 || lat <= q.max), "wrong-latency", "span %d took %v but is reported for %v to %v", s.slot, lat, q.min, q.max)
				} else {
					h.Check("C12", sd.Code != 0 && (q.code == 0 || q.code == sd.Code), "wrong-code", "span %d with code %d is reported for code %d", s.slot, sd.Code, q.code)
				}
				ts.judgeData(s, sd, window{s.firstEndInv(), min(q.ret, s.lastEndRet())}, true)
				ts.judgeEnd(s, sd, q.t1)
				for _, x := range s.exports {
					h.Check("C12", x.snap == dumpSpan(sd), "sample-differs", "span %d was exported as\n%s\nand reported as\n%s", s.slot, x.snap, dumpSpan(sd))
				}
			}
		}
	}
	if h.K("store") != 0 {
		for i := int64(0); i < trNames; i++ {
			ts.judgeSamples(trName(i))
		}
	}
}

func (ts *traceSim) judgeSummary(q *trQuery) {
	h := ts.h
	stored := h.K("store") != 0
	for n, m := range q.sum {
		known, lo, hi := false, 0, 0
		for _, s := range ts.all {
			if s.name != n || s.start.inv > q.ret || !stored {
				continue
			}
			known = true
			if s.firstEndRet() > q.inv {
				hi++
			}
			if s.start.ret < q.inv && s.firstEndInv() > q.ret {
				lo++
			}
		}
		for _, z := range ts.sizes {
			if z.name == n && z.inv < q.ret {
				known = true
			}
		}
		h.Check("C12", known, "summary-unknown", "the summary shows %q, under which nothing happened", n)
		h.Check("C12", m.Active >= lo && m.Active <= hi, "summary-active", "the summary shows %d active spans of %q; between %d and %d were", m.Active, n, lo, hi)
		h.Check("C12", len(m.LatencyBuckets) == len(latBounds), "summary-buckets", "%d latency buckets", len(m.LatencyBuckets))
		for i, b := range m.LatencyBuckets {
			ok := i < len(latBounds) && b.MinLatency == latBounds[i] && (i+1 == len(latBounds) || b.MaxLatency == latBounds[i+1])
			h.Check("C12", ok, "summary-bounds", "latency bucket %d is %v to %v", i, b.MinLatency, b.MaxLatency)
		}
		seen := map[int32]bool{}
		for _, e := range m.ErrorBuckets {
			h.Check("C12", e.ErrorCode != 0 && !seen[e.ErrorCode], "summary-codes", "error bucket for code %d", e.ErrorCode)
			seen[e.ErrorCode] = true
		}
	}
	for _, s := range ts.all {
		if s.sp != nil && stored && s.start.ret < q.inv {
			_, ok := q.sum[s.name]
			h.Check("C12", ok, "summary-missing", "the summary lacks %q though span %d was started under it", s.name, s.slot)
		}
	}
}

// judgeSamples replays the ends and resizings under a name on a model of the
// store, in every legal order, and compares the queries with it.
func (ts *traceSim) judgeSamples(name string) {
	type ev struct {
		iv
		span *trSpan
		size *trSize
		lat  int
		code int32
		end  int64
	}
	var evs []*ev
	took := map[int]time.Duration{}
	for _, s := range ts.all {
		if s.name != name || s.sp == nil || !s.rec || len(s.ends) == 0 {
			continue
		}
		e := &ev{span: s}
		e.inv, e.ret = s.firstEndInv(), s.lastEndRet()
		var sd *trace.SpanData
		for _, x := range s.exports {
			sd = x.sd
		}
		for _, q := range ts.queries {
			if q.kind == "latency" || q.kind == "error" {
				for _, d := range q.sds {
					if d.SpanID == s.sc.SpanID {
						sd = d
					}
				}
			}
		}
		if sd == nil {
			simrt.Probe("reached: store model not applicable")
			return
		}
		e.code = sd.Code
		e.end = ts.base.mono(sd.EndTime)
		took[s.slot] = sd.EndTime.Sub(sd.StartTime)
		e.lat = latIndex(int64(took[s.slot]))
		evs = append(evs, e)
	}
	for _, z := range ts.sizes {
		if z.name == name {
			evs = append(evs, &ev{iv: z.iv, size: z})
		}
	}
	if len(evs) > 40 {
		return
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].inv < evs[j].inv })
	type bkt struct {
		key  int // latency index, or trFailed+code
		next int64
		ids  []int
	}
	type store struct {
		nlat, nerr int
		b          []bkt
	}
	clone := func(s store) store {
		c := s
		c.b = append([]bkt(nil), s.b...)
		return c
	}
	// A bucket of size 0 keeps none; whether it starts the waiting time of a
	// span it cannot keep is its business: wait says whether it does.
	none := func(s store, e *ev) bool {
		return e.size == nil && (e.code != 0 && s.nerr == 0 || e.code == 0 && s.nlat == 0)
	}
	apply := func(s store, e *ev, wait bool) store {
		s = clone(s)
		if e.size != nil {
			s.nlat, s.nerr = max(e.size.lat, 0), max(e.size.errs, 0)
			for i := range s.b {
				n := s.nlat
				if s.b[i].key > trFailed/2 {
					n = s.nerr
				}
				if len(s.b[i].ids) > n {
					s.b[i].ids = append([]int(nil), s.b[i].ids[len(s.b[i].ids)-n:]...)
				}
			}
			return s
		}
		key := e.lat
		n := s.nlat
		if e.code != 0 {
			key = trFailed + int(e.code)
			n = s.nerr
		}
		i := 0
		for i < len(s.b) && s.b[i].key != key {
			i++
		}
		if i == len(s.b) {
			s.b = append(s.b, bkt{key: key, next: -1 << 62})
		}
		b := &s.b[i]
		if e.end < b.next {
			return s
		}
		if wait {
			b.next = e.end + int64(time.Second)
		}
		b.ids = append(append([]int(nil), b.ids...), e.span.slot)
		if len(b.ids) > n {
			b.ids = b.ids[1:]
		}
		return s
	}
	fits := func(s store, q *trQuery) bool {
		if q.kind == "summary" {
			m, ok := q.sum[name]
			if !ok {
				return len(s.b) == 0
			}
			for i, l := range m.LatencyBuckets {
				n := 0
				for _, b := range s.b {
					if b.key == i {
						n = len(b.ids)
					}
				}
				if l.Size != n {
					return false
				}
			}
			total := 0
			for _, l := range m.ErrorBuckets {
				n := 0
				for _, b := range s.b {
					if b.key == trFailed+int(l.ErrorCode) {
						n = len(b.ids)
					}
				}
				if l.Size != n {
					return false
				}
				total += n
			}
			for _, b := range s.b {
				if b.key > trFailed/2 {
					total -= len(b.ids)
				}
			}
			return total == 0
		}
		want := map[int]bool{}
		for _, b := range s.b {
			for _, id := range b.ids {
				switch {
				case q.kind == "latency" && b.key < trFailed/2:
					if took[id] >= q.min && (q.max == 0 || took[id] <= q.max) {
						want[id] = true
					}
				case q.kind == "error" && b.key > trFailed/2 && (q.code == 0 || b.key == trFailed+int(q.code)):
					want[id] = true
				}
			}
		}
		if len(want) != len(q.sds) {
			return false
		}
		for _, sd := range q.sds {
			if sp := ts.byID[sd.SpanID]; sp == nil || !want[sp.slot] {
				return false
			}
		}
		return true
	}
	for _, q := range ts.queries {
		if q.kind == "active" || q.kind != "summary" && q.name != name {
			continue
		}
		nodes := 0
		giveUp := false
		var last store
		var walk func(done uint64, s store) bool
		walk = func(done uint64, s store) bool {
			if nodes++; nodes > 3000 {
				giveUp = true
				return true
			}
			complete := true
			for i, e := range evs {
				if done&(1<<uint(i)) == 0 && e.ret < q.inv {
					complete = false
					break
				}
			}
			if complete {
				last = s
				if fits(s, q) {
					return true
				}
			}
			for i, e := range evs {
				if done&(1<<uint(i)) != 0 || e.inv > q.ret {
					continue
				}
				ok := true
				for j, o := range evs {
					if j != i && done&(1<<uint(j)) == 0 && o.before(e.iv) {
						ok = false
						break
					}
				}
				if ok && walk(done|1<<uint(i), apply(s, e, true)) {
					return true
				}
				if ok && none(s, e) && walk(done|1<<uint(i), apply(s, e, false)) {
					return true
				}
			}
			return false
		}
		ok := walk(0, store{nlat: 10, nerr: 10})
		if giveUp {
			simrt.Probe("reached: store search gave up")
			continue
		}
		got := sp(q.sum[name])
		if q.kind != "summary" {
			got = ""
			for _, sd := range q.sds {
				if s := ts.byID[sd.SpanID]; s != nil {
					got += sf("%d ", s.slot)
				}
			}
		}
		ts.h.Check("C12", ok, "samples", "%s query (events %d-%d) of %q: got %s; what ended before leaves %s", q.kind, q.inv, q.ret, name, got, sp(last))
	}
}

// ---------------------------------------------------------------- workload

func genTracePlan(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	nc := r.Range(2, 4)
	per := r.Range(5, 16)
	if deep && r.Bool(0.3) {
		per = r.Range(14, 26)
	}
	store := r.Bool(0.55)
	if store {
		p.Knobs["store"] = 1
	}
	p.Knobs["preexp"] = r.I64(0, 7)
	focus := r.Intn(5) // 0 anything, 1 few spans with many items, 2 starts and configuration, 3 store, 4 ends and exporters
	if focus == 3 {
		p.Knobs["store"] = 1
		p.Knobs["preexp"] |= 1
	}
	p.Knobs["always"] = int64(r.PickW(1, 3)) // every span is sampled
	if focus == 2 {
		p.Knobs["always"] = 0
	}
	p.Knobs["limits"] = 0
	if r.Bool(0.8) {
		p.Knobs["limits"] = r.I64(1, 4) | r.I64(1, 4)<<4 | r.I64(1, 4)<<8 | r.I64(1, 4)<<12
	}
	jumps := r.Bool(0.3)
	hot := r.Range(1, 3)
	const slots = 20
	pool := slots / 2
	next := pool
	startOp := func(slot int) Op {
		parent := int64(-1)
		switch r.PickW(3, 4, 2, 1) {
		case 1:
			parent = r.I64(0, slots-1)
			if int(parent) == slot {
				parent = -1
			}
		case 2:
			parent = -2
		case 3:
			parent = -3
		}
		smp := int64(0)
		if p.Knobs["always"] == 1 {
			if parent < 0 || r.Bool(0.4) {
				smp = 1
			}
			if r.Bool(0.1) {
				smp = r.I64(0, 10)
			}
		} else {
			smp = int64(r.PickW(8, 4, 2, 2, 2, 1, 1, 1, 1, 1, 1))
		}
		d := r.I64(0, 1023)
		if focus == 3 || r.Bool(0.5) {
			d -= d % 3 // mostly one name
		}
		return Op{K: "start", A: int64(slot), B: parent, C: smp, D: d}
	}
	var pre []Op
	for i := 0; i < pool; i++ {
		if r.Bool(0.7) {
			pre = append(pre, startOp(i))
		}
	}
	cfgOp := func(full bool) Op {
		o := Op{K: "cfg"}
		if full {
			o.A = anySampler(r)
			o.B = r.I64(1, 15) | r.I64(1, 15)<<4 | r.I64(1, 15)<<8 | r.I64(1, 15)<<12
			o.C = r.I64(0, 1)
		} else {
			if r.Bool(0.4) {
				o.A = anySampler(r)
			}
			o.B = r.I64(1, 5) << uint(4*r.Intn(4))
			if r.Bool(0.2) {
				o.C = 1
			}
		}
		return o
	}
	fullCfg := r.Bool(0.5)
	ncfg := 0
	slot := func() int64 {
		if focus == 1 || r.Bool(0.3) {
			return int64(r.Intn(hot))
		}
		return r.I64(0, next-1)
	}
	attrs := func() int64 {
		var m int64
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			m |= r.I64(1, 6) << uint(4*i)
		}
		return m
	}
	w := [][]int{
		{4, 5, 3, 3, 2, 1, 2, 4, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1},
		{0, 10, 5, 5, 5, 1, 2, 1, 0, 0, 0, 0, 0, 3, 1, 1, 1, 0},
		{8, 1, 1, 1, 1, 0, 0, 2, 0, 0, 0, 4, 0, 0, 0, 1, 1, 0},
		{5, 1, 0, 0, 0, 0, 4, 8, 0, 0, 0, 0, 1, 2, 3, 5, 3, 3},
		{5, 1, 1, 1, 1, 0, 1, 9, 1, 3, 3, 0, 0, 0, 0, 2, 1, 0},
	}[focus]
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < per; i++ {
			switch r.PickW(w...) {
			case 0:
				if next < slots {
					ops = append(ops, startOp(next))
					next++
				}
			case 1:
				ops = append(ops, Op{K: "attr", A: slot(), B: attrs()})
			case 2:
				b := int64(0)
				if r.Bool(0.6) {
					b = attrs()
				}
				ops = append(ops, Op{K: r.Pick("ann", "annf"), A: slot(), B: b})
			case 3:
				ops = append(ops, Op{K: r.Pick("msgs", "msgr"), A: slot(), B: r.I64(0, 100), C: r.I64(0, 100)})
			case 4:
				ops = append(ops, Op{K: "link", A: slot(), B: r.I64(0, 7)})
			case 5:
				ops = append(ops, Op{K: "name", A: slot()})
			case 6:
				ops = append(ops, Op{K: "status", A: slot(), B: r.I64(0, 3)})
			case 7:
				ops = append(ops, Op{K: "end", A: slot()})
			case 8:
				ops = append(ops, Op{K: r.Pick("nil", "str"), A: slot()})
			case 9:
				if c < trExps {
					slow := int64(0)
					if r.Bool(0.3) {
						slow = r.Dur(time.Microsecond, time.Second)
					}
					ops = append(ops, Op{K: "exp", A: int64(c), B: slow})
				}
			case 10:
				if c < trExps && (focus != 3 || c > 0) {
					ops = append(ops, Op{K: "unexp", A: int64(c)})
				}
			case 11:
				if ncfg < 7 {
					ncfg++
					ops = append(ops, cfgOp(fullCfg))
				}
			case 12:
				n := func() int64 {
					if r.Bool(0.1) {
						return r.I64(-1, 0)
					}
					return r.I64(1, 5)
				}
				ops = append(ops, Op{K: "size", A: r.I64(0, 2), B: n(), C: n()})
			case 13:
				ops = append(ops, Op{K: "active", A: r.I64(0, 2)})
			case 14:
				ops = append(ops, Op{K: "summary"})
			case 15:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, 2*time.Minute)})
			case 16:
				if jumps {
					d := r.Dur(time.Millisecond, 1000*time.Hour)
					if r.Bool(0.5) {
						d = -d
					}
					ops = append(ops, Op{K: "jump", A: d})
				}
			case 17:
				if r.Bool(0.5) {
					b := r.I64(0, 9)
					if r.Bool(0.3) {
						b = r.I64(0, 8) | r.I64(1, 7)<<4
					}
					ops = append(ops, Op{K: "latency", A: r.I64(0, 2), B: b})
				} else {
					ops = append(ops, Op{K: "error", A: r.I64(0, 2), B: r.I64(0, 3)})
				}
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	p.Clients = append([][]Op{pre}, p.Clients...)
	if r.Bool(0.2) {
		p.Knobs["own"] = r.I64(1, 4)
	}
	if r.Bool(0.2) {
		p.Knobs["turn"] = r.I64(1, 3)
	}
	return p
}

func anySampler(r *Rand) int64 { return 1 + int64(r.PickW(4, 4, 4, 4, 1, 1, 1, 1, 1, 1)) }

// genTrConfigPlan starts many spans while the configuration changes as a whole.
func genTrConfigPlan(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"preexp": 1, "always": 0, "limits": 0}}
	cfg := func() Op {
		return Op{K: "cfg", A: anySampler(r), B: r.I64(1, 4) | r.I64(1, 4)<<4 | r.I64(1, 4)<<8 | r.I64(1, 4)<<12, C: 1}
	}
	p.Clients = append(p.Clients, []Op{cfg()})
	if r.Bool(0.05) {
		p.Clients[0] = append(p.Clients[0], Op{K: "fraction", A: r.I64(0, 1<<30)})
	}
	next := 0
	n := r.Range(2, 4)
	if deep {
		n = r.Range(2, 6)
	}
	for c := 0; c < 2; c++ {
		var ops []Op
		for i := 0; i < n; i++ {
			parent := int64(-1)
			if r.Bool(0.3) {
				parent = -2
			}
			ops = append(ops, Op{K: "start", A: int64(next), B: parent, D: r.I64(0, 1023)})
			if r.Bool(0.5) {
				ops = append(ops, Op{K: "fill", A: int64(next)}, Op{K: "end", A: int64(next)})
			}
			next++
		}
		p.Clients = append(p.Clients, ops)
	}
	for c := 0; c < r.Range(1, 2); c++ {
		var ops []Op
		for i := 0; i < r.Range(1, 3); i++ {
			ops = append(ops, cfg())
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

// genTrStorePlan is about what the span store keeps: many spans of few names
// end, mostly one after the other and more than the sampling period apart,
// while the store is resized and queried.
func genTrStorePlan(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"preexp": 1, "store": 1, "always": int64(r.PickW(1, 3)), "limits": 0}}
	nc := r.PickW(3, 2, 1) + 1
	names := r.Range(1, 2)
	per := r.Range(4, 36/nc)
	codes := r.Range(1, 3)
	size := func(name int64) Op {
		o := Op{K: "size", A: name, B: r.I64(1, 3), C: r.I64(1, 3)}
		if r.Bool(0.1) {
			o.B = 1 << 50 // more than it will ever keep
		}
		if r.Bool(0.1) {
			o.C = 1 << 50
		}
		if r.Bool(0.12) { // keep none
			o.C = r.I64(-1, 0)
		}
		if r.Bool(0.06) {
			o.B = r.I64(-1, 0)
		}
		return o
	}
	latQuery := func() int64 {
		if r.Bool(0.4) {
			return r.I64(0, 8) | r.I64(1, 7)<<4
		}
		return r.I64(0, 9)
	}
	newName := r.Bool(0.3) // its first uses come all at once
	var pre []Op
	if r.Bool(0.4) && !newName {
		pre = append(pre, size(0))
	}
	p.Clients = append(p.Clients, pre)
	next := int64(0)
	if newName {
		nc = max(nc, 2)
		per = min(per, 12)
	}
	exact := r.Bool(0.2) // just as long as the bounds are
	if exact {
		p.Knobs["_maxtick"] = 0
	}
	if r.Bool(0.2) {
		p.Knobs["codes"] = 1
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		if newName && r.Bool(0.6) {
			ops = append(ops, size(0))
		}
		fail := float64(r.Intn(101)) / 100
		same := r.Bool(0.5)
		lat := r.I64(0, 8)
		for i := 0; i < per; i++ {
			name := r.I64(0, names-1)
			ops = append(ops, Op{K: "start", A: next, B: -1, C: 1, D: name})
			if r.Bool(fail) {
				ops = append(ops, Op{K: "status", A: next, B: r.I64(1, codes)})
			}
			l := lat
			if !same {
				l = r.I64(0, 8)
			}
			lo, hi := latRange(l)
			if hi == 0 {
				hi = 2 * lo
			}
			d := r.Dur(max(lo, 1), hi)
			if exact && lo > 0 {
				d = int64(lo)
			}
			ops = append(ops, Op{K: "sleep", A: d}, Op{K: "end", A: next})
			next++
			switch r.PickW(4, 1, 2) {
			case 0:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Second, 1500*time.Millisecond)})
			case 1:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, 1200*time.Millisecond)})
			}
			switch r.PickW(10, 1, 1, 1, 1, 1) {
			case 1:
				ops = append(ops, size(name))
			case 2:
				ops = append(ops, Op{K: "summary"})
			case 3:
				ops = append(ops, Op{K: "latency", A: name, B: latQuery()})
			case 4:
				ops = append(ops, Op{K: "error", A: name, B: r.I64(0, codes)})
			case 5:
				ops = append(ops, Op{K: "active", A: name})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "trace", Props: []string{"C08", "C09", "C10", "C11", "C12"}, Gen: genTracePlan, Weight: 4, Run: runTrace,
	})
	Register(&Workload{Name: "traceconfig", Props: []string{"C10"}, Gen: genTrConfigPlan, Weight: 3, Run: runTrace})
	Register(&Workload{Name: "spanstore", Props: []string{"C12"}, Gen: genTrStorePlan, Weight: 3, Run: runTrace})
}

func runTrace(h *H) {
	{
		{
			ts := &traceSim{h: h, base: newClockBase(), byID: map[trace.SpanID]*trSpan{}, genOf: map[trace.SpanID]int{}, starting: map[int]*trStart{}}
			ts.store = internal.Trace.(traceStore)
			ts.own = h.K("own")
			internal.LocalSpanStoreEnabled = h.K("store") != 0
			for i := range ts.exps {
				ts.exps[i] = &trExporter{id: i, ts: ts}
				if h.K("preexp")&(1<<uint(i)) != 0 {
					ts.doRegExp(i, 0)
				}
			}
			if h.K("always") == 1 || h.K("limits") != 0 {
				op := Op{K: "cfg", B: h.K("limits")}
				if h.K("always") == 1 {
					op.A = 1
				}
				ts.doCfg(op)
			}
			for _, op := range h.P.Clients[0] {
				ts.exec(op)
			}
			var tasks []*simrt.Task
			for i, ops := range h.P.Clients[1:] {
				tasks = append(tasks, simrt.Spawn(sf("client%d", i+1), func() {
					for _, op := range ops {
						ts.exec(op)
					}
				}))
			}
			if !h.JoinAll("C08", h.HangLimit(), tasks) {
				return
			}
			if h.K("store") != 0 {
				ts.exec(Op{K: "summary"})
				for n := int64(0); n < trNames; n++ {
					ts.exec(Op{K: "active", A: n})
					ts.exec(Op{K: "latency", A: n, B: 9})
					ts.exec(Op{K: "latency", A: n, B: int64(simrt.Choose(9))})
					ts.exec(Op{K: "latency", A: n, B: int64(simrt.Choose(9)) | int64(1+simrt.Choose(7))<<4})
					ts.exec(Op{K: "error", A: n})
					ts.exec(Op{K: "error", A: n, B: 1 + int64(simrt.Choose(3))})
				}
			}
			ts.judge()
		}
	}
}

var _ = fmt.Sprint
