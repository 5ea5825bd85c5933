//go:build go1.23

package harness

import (
	"context"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifsim/simrt"
)

// The spanmany workload: hundreds of spans of many names run at once and end
// in any order, with many exporters; each span is followed by little more than
// a few numbers.

type manySpan struct {
	sp            *trace.Span
	name          string
	parent        *manySpan
	code          int32
	started, over iv
	sampled       bool
	exports       []int
}

type manySim struct {
	h     *H
	store traceStore
	byID  map[trace.SpanID]*manySpan
	all   []*manySpan
	own   [][]*manySpan
	nexp  int
}

type manyExp struct {
	id int
	ms *manySim
}

func (e *manyExp) ExportSpan(sd *trace.SpanData) {
	h := e.ms.h
	s := e.ms.byID[sd.SpanID]
	if !h.Check("C08", s != nil, "unknown-span", "a span was exported that was never started: %v", sd.SpanContext) {
		return
	}
	s.exports[e.id]++
	h.Check("C08", s.over.inv != 0, "export-running", "a span was exported before it ended")
	par := trace.SpanID{}
	if s.parent != nil {
		par = s.parent.sp.SpanContext().SpanID
	}
	h.Check("C08", sd.Name == s.name && sd.Status.Code == s.code && sd.ParentSpanID == par && sd.SpanContext == s.sp.SpanContext(), "export-identity", "the span %q (parent %v, code %d) was exported as %q (%v, %d)", s.name, par, s.code, sd.Name, sd.ParentSpanID, sd.Status.Code)
	d := int64(sd.EndTime.Sub(sd.StartTime))
	h.Check("C11", d >= s.over.t0-s.started.t1 && d <= mnow()-s.started.t0, "duration", "a span that took between %d and %d ns was exported with %d", s.over.t0-s.started.t1, mnow()-s.started.t0, d)
}

func (ms *manySim) start(c int, name string, child bool) {
	s := &manySpan{name: name, exports: make([]int, ms.nexp)}
	ctx := context.Background()
	if o := ms.own[c]; child && len(o) > 0 {
		s.parent = o[simrt.Choose(len(o))]
		ctx = trace.NewContext(ctx, s.parent.sp)
	}
	ms.all = append(ms.all, s)
	s.started = begin("start", name)
	_, s.sp = trace.StartSpan(ctx, name)
	sc := s.sp.SpanContext()
	s.started.end("started")
	s.sampled = sc.IsSampled()
	h := ms.h
	h.Check("C10", ms.byID[sc.SpanID] == nil && sc.SpanID != trace.SpanID{}, "span-id", "the span identifier %v is zero or was used before", sc.SpanID)
	ms.byID[sc.SpanID] = s
	if p := s.parent; p != nil {
		h.Check("C10", sc.TraceID == p.sp.SpanContext().TraceID && s.sampled == p.sampled, "child", "a child of %v is %v", p.sp.SpanContext(), sc)
	}
	ms.own[c] = append(ms.own[c], s)
}

func (ms *manySim) end(c int) {
	o := ms.own[c]
	if len(o) == 0 {
		return
	}
	i := simrt.Choose(len(o))
	s := o[i]
	ms.own[c] = append(append([]*manySpan(nil), o[:i]...), o[i+1:]...)
	if k := simrt.Choose(6); k > 3 {
		s.code = int32(k)
		s.sp.SetStatus(trace.Status{Code: s.code})
	}
	s.over = begin("end", s.name)
	s.sp.End()
	s.over.end("ended")
}

func (ms *manySim) look() {
	h := ms.h
	if simrt.Race {
		ms.store.ReportSpansPerMethod()
		return
	}
	i := begin("summary", nil)
	sum := ms.store.ReportSpansPerMethod()
	i.end("summary done")
	names := map[string]bool{}
	for _, s := range ms.all {
		if s.started.ret != 0 && s.started.ret < i.inv {
			names[s.name] = true
		}
	}
	for n := range sum {
		names[n] = true
	}
	for _, n := range sortedKeys(names) {
		lo, hi := 0, 0
		for _, s := range ms.all {
			if s.name != n {
				continue
			}
			if s.started.inv > i.ret || s.over.ret != 0 && s.over.ret != never && s.over.ret < i.inv {
				continue
			}
			hi++
			if s.sp != nil && s.started.ret < i.inv && (s.over.inv == 0 || s.over.inv > i.ret) {
				lo++
			}
		}
		a := sum[n].Active
		h.Check("C12", a >= lo && a <= hi, "active-count", "a summary shows %d active spans of %q; there were %d to %d", a, n, lo, hi)
	}
}

func (ms *manySim) exec(c int, op Op) {
	switch op.K {
	case "start":
		for i := int64(0); i < op.A; i++ {
			ms.start(c, sf("n%d", (op.B+i)%max(1, ms.h.K("names"))), i%3 > 0)
		}
	case "end":
		for i := int64(0); i < op.A; i++ {
			ms.end(c)
			if op.B > 0 {
				simrt.Sleep(op.B)
			}
		}
	case "look":
		ms.look()
	case "sleep":
		simrt.Sleep(op.A)
	case "jump":
		ms.h.Fault("wall clock jump")
		simrt.JumpWall(op.A)
	}
}

func (ms *manySim) judge() {
	h := ms.h
	if simrt.Race {
		return
	}
	type key struct {
		name string
		lat  int
		code int32
	}
	ended := map[key]int{}
	for _, s := range ms.all {
		for e, n := range s.exports {
			want := 0
			if s.sampled {
				want = 1
			}
			h.Check("C08", n == want, "export-count", "exporter %d of %d got the span %q of %d spans %d times, not %d", e, ms.nexp, s.name, len(ms.all), n, want)
		}
	}
	for _, n := range sortedKeys(func() map[string]bool {
		m := map[string]bool{}
		for _, s := range ms.all {
			m[s.name] = true
		}
		return m
	}()) {
		h.Check("C12", len(ms.store.ReportActiveSpans(n)) == 0, "active-count", "%q has active spans after all have ended", n)
		for i := range latBounds {
			lo := latBounds[i]
			hi := time.Duration(1<<63 - 1)
			if i+1 < len(latBounds) {
				hi = latBounds[i+1]
			}
			seen := map[trace.SpanID]bool{}
			for _, sd := range ms.store.ReportSpansByLatency(n, lo, hi-1) {
				s := ms.byID[sd.SpanID]
				d := sd.EndTime.Sub(sd.StartTime)
				h.Check("C12", s != nil && s.name == n && s.code == 0 && !seen[sd.SpanID] && d >= lo && d < hi, "sample", "a sample of %q between %v and %v: %q, %v", n, lo, hi, sd.Name, d)
				seen[sd.SpanID] = true
				ended[key{n, i, 0}]++
			}
		}
		for code := int32(1); code < 6; code++ {
			seen := map[trace.SpanID]bool{}
			for _, sd := range ms.store.ReportSpansByError(n, code) {
				s := ms.byID[sd.SpanID]
				h.Check("C12", s != nil && s.name == n && s.code == code && sd.Status.Code == code && !seen[sd.SpanID], "sample", "a sample of %q with code %d: %q, %d", n, code, sd.Name, sd.Status.Code)
				seen[sd.SpanID] = true
				ended[key{n, -1, code}]++
			}
		}
	}
	// Of what ended there is a sample, and no more than fit or happened.
	for _, s := range ms.all {
		k := key{s.name, -1, s.code}
		if s.code == 0 {
			a, b := latIndex(s.over.t0-s.started.t1), latIndex(s.over.t1-s.started.t0)
			if a != b {
				continue
			}
			k.lat = a
		}
		h.Check("C12", ended[k] >= 1, "sample-missing", "a span of %q, code %d, latency range %d, ended; the store shows none", s.name, s.code, k.lat)
	}
	sum := ms.store.ReportSpansPerMethod()
	for n, p := range sum {
		h.Check("C12", p.Active == 0, "active-count", "a summary shows %d active spans of %q after all have ended", p.Active, n)
		for i, b := range p.LatencyBuckets {
			h.Check("C12", b.Size == ended[key{n, i, 0}] && b.Size <= 10, "summary-size", "a summary shows %d samples of %q in latency range %d, a report %d", b.Size, n, i, ended[key{n, i, 0}])
		}
		for _, b := range p.ErrorBuckets {
			h.Check("C12", b.Size == ended[key{n, -1, b.ErrorCode}] && b.Size <= 10, "summary-size", "a summary shows %d samples of %q with code %d, a report %d", b.Size, n, b.ErrorCode, ended[key{n, -1, b.ErrorCode}])
		}
	}
}

func genSpanMany(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	p.Knobs["names"] = 1 + r.I64(0, 20)*r.I64(0, 20)
	p.Knobs["exps"] = r.I64(1, 3) * r.I64(1, 6)
	p.Knobs["part"] = int64(r.PickW(3, 1))
	nc := r.Range(1, 5)
	n := r.Range(10, 120)
	if deep {
		n *= r.Range(1, 4)
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := r.Range(1, 5); i > 0; i-- {
			ops = append(ops, Op{K: "start", A: int64(r.Range(1, n)), B: r.I64(0, 400)})
			switch r.PickW(2, 2, 2, 1) {
			case 0:
				ops = append(ops, Op{K: "look"})
			case 1:
				ops = append(ops, Op{K: "end", A: int64(r.Range(1, n)), B: r.I64(0, 1) * r.Dur(time.Microsecond, time.Second)})
			case 2:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, time.Minute)})
			case 3:
				ops = append(ops, Op{K: "jump", A: r.I64(-1, 1) * r.Dur(time.Millisecond, 100*time.Hour)})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "spanmany", Props: []string{"C08", "C10", "C12", "C11"}, Gen: genSpanMany, Weight: 1,
		Run: func(h *H) {
			ms := &manySim{h: h, store: internal.Trace.(traceStore), byID: map[trace.SpanID]*manySpan{}, own: make([][]*manySpan, len(h.P.Clients))}
			internal.LocalSpanStoreEnabled = true
			ms.nexp = int(h.K("exps"))
			for i := 0; i < ms.nexp; i++ {
				trace.RegisterExporter(&manyExp{id: i, ms: ms})
			}
			s := trace.AlwaysSample()
			if h.K("part") != 0 {
				s = trace.ProbabilitySampler(0.5)
			}
			trace.ApplyConfig(trace.Config{DefaultSampler: s})
			if !h.RunClients("C08", h.HangLimit(), ms.exec) {
				return
			}
			ms.look()
			for c := range ms.own {
				for len(ms.own[c]) > 0 {
					ms.end(c)
				}
			}
			ms.judge()
		},
	})
}
