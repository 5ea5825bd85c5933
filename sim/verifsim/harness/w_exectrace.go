//go:build go1.23

package harness

import (
	"context"
	"time"

	"go.opencensus.io/trace"
	"go.opencensus.io/verifsim/simexectrace"
	"go.opencensus.io/verifsim/simrt"
)

// The exectrace workload: the Go execution tracer is switched on and off while
// spans start and end; it must be told of each span as one task.

type etSpan struct {
	id     int
	name   string
	ctx    context.Context
	sp     *trace.Span
	start  iv
	parent *etSpan
	ends   []iv
}

type etSwitch struct {
	at int
	on bool
}

type etSim struct {
	h        *H
	all      []*etSpan
	switches []etSwitch
}

// on says whether the tracer ran at some moment and at every moment of [a, b].
func (et *etSim) on(a, b int) (some, every bool) {
	now, every := false, true
	for _, s := range et.switches {
		if s.at < a {
			now = s.on
		}
	}
	some, every = now, now
	for _, s := range et.switches {
		if s.at >= a && s.at <= b {
			some, every = some || s.on, every && s.on
		}
	}
	return some, every
}

func (et *etSim) begin(op Op) {
	s := &etSpan{id: len(et.all)}
	et.all = append(et.all, s)
	s.name = sf("%s%d", []string{"span", "", "a/b"}[op.B%3], s.id)
	if op.B%9 == 4 {
		s.name = ""
	}
	ctx := context.Background()
	if n := s.id; n > 0 && op.A > 0 {
		if p := et.all[int(op.A)%n]; p.ctx != nil {
			s.parent = take(p)
			ctx = p.ctx
		}
	}
	var o []trace.StartOption
	switch op.C % 3 {
	case 0:
		o = append(o, trace.WithSampler(trace.AlwaysSample()))
	case 1:
		o = append(o, trace.WithSampler(trace.NeverSample()))
	}
	s.start = begin("start", s.id)
	var sp *trace.Span
	if op.C%5 == 0 {
		ctx, sp = trace.StartSpanWithRemoteParent(ctx, s.name, trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{byte(s.id), 1}, TraceOptions: trace.TraceOptions(op.C % 2)}, o...)
	} else {
		ctx, sp = trace.StartSpan(ctx, s.name, o...)
	}
	s.start.end("started")
	s.ctx, s.sp = ctx, sp
	give(s)
	if simrt.Race {
		return
	}
	h := et.h
	some, every := et.on(s.start.inv, s.start.ret)
	var before *simexectrace.Task
	if s.parent != nil {
		before = simexectrace.Of(s.parent.ctx)
	}
	t := simexectrace.Of(ctx)
	if t == before {
		h.Check("C21", !every, "no-task", "the span %q was started while the execution tracer ran; its context is in no task of its own", s.name)
		return
	}
	h.Check("C21", some, "task-off", "the span %q was started while the execution tracer did not run; there is a task %q", s.name, t.Name)
	h.Check("C21", t.Name == s.name && t.Parent == before, "task", "the span %q has the task %q of parent %v, not %v", s.name, t.Name, t.Parent, before)
	h.Check("C21", t.Ends == 0, "ended-early", "the task of %q ended before the span", s.name)
	h.Probe("task")
}

func (et *etSim) end(op Op) {
	if len(et.all) == 0 {
		return
	}
	s := et.all[int(op.A)%len(et.all)]
	if s.ctx == nil {
		return
	}
	take(s)
	i := len(s.ends)
	s.ends = append(s.ends, begin("end", s.id))
	s.sp.End()
	s.ends[i].end("ended")
	if t := et.own(s); t != nil && !simrt.Race {
		pending := 0 // one of the others may be the first
		for _, e := range s.ends {
			if e.ret == never {
				pending++
			}
		}
		et.h.Check("C21", t.Ends == 1 || t.Ends == 0 && pending > 0, "ends", "after the span %q was ended %d times its task has ended %d times", s.name, len(s.ends), t.Ends)
	}
}

// own is the task that is s's.
func (et *etSim) own(s *etSpan) *simexectrace.Task {
	t := simexectrace.Of(s.ctx)
	if s.parent != nil && simexectrace.Of(s.parent.ctx) == t {
		return nil
	}
	return t
}

func (et *etSim) exec(c int, op Op) {
	switch op.K {
	case "start":
		et.begin(op)
	case "end":
		et.end(op)
	case "switch":
		simexectrace.Enabled = op.A%2 == 1
		et.switches = append(et.switches, etSwitch{simrt.Log("execution tracer", op.A%2), op.A%2 == 1})
	case "sleep":
		simrt.Sleep(op.A)
	case "look":
		if simrt.Race {
			return
		}
		for _, s := range et.all {
			if s.ctx == nil {
				continue
			}
			if t := et.own(s); t != nil && len(s.ends) == 0 {
				et.h.Check("C21", t.Ends == 0, "ended-early", "the task of %q ended before the span", s.name)
			}
		}
	}
}

func genExecTrace(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"on": int64(r.PickW(1, 4)), "sampled": int64(r.Intn(3)), "exps": r.I64(0, 2)}}
	nc := r.Range(1, 5)
	n := r.Range(2, 30)
	if deep {
		n *= r.Range(1, 4)
	}
	sw := r.PickW(1, 1)
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < n; i++ {
			switch r.PickW(4, 5, sw, 1, 1) {
			case 0:
				ops = append(ops, Op{K: "start", A: r.I64(0, 40), B: r.I64(0, 100), C: r.I64(0, 100)})
			case 1:
				ops = append(ops, Op{K: "end", A: r.I64(0, 60)})
			case 2:
				ops = append(ops, Op{K: "switch", A: r.I64(0, 1)})
			case 3:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, time.Second)})
			case 4:
				ops = append(ops, Op{K: "look"})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

type etExp struct{ id int64 }

func (*etExp) ExportSpan(sd *trace.SpanData) {
	if sd.SpanID[0]%2 == 0 {
		simrt.Sleep(int64(time.Millisecond))
	}
}

func init() {
	Register(&Workload{
		Name: "exectrace", Props: []string{"C21"}, Gen: genExecTrace, Weight: 1,
		Run: func(h *H) {
			et := &etSim{h: h}
			et.exec(0, Op{K: "switch", A: h.K("on")})
			trace.ApplyConfig(trace.Config{DefaultSampler: []trace.Sampler{trace.AlwaysSample(), trace.NeverSample(), trace.ProbabilitySampler(0.5)}[h.K("sampled")]})
			for i := int64(0); i < h.K("exps"); i++ {
				trace.RegisterExporter(&etExp{i})
			}
			if !h.RunClients("C21", h.HangLimit(), et.exec) || simrt.Race {
				return
			}
			want := 0
			for _, s := range et.all {
				t := et.own(s)
				if t == nil {
					continue
				}
				want++
				n := 0
				if len(s.ends) > 0 {
					n = 1
				}
				h.Check("C21", t.Ends == n, "ends", "the span %q was ended %d times, its task %d times", s.name, len(s.ends), t.Ends)
			}
			h.Check("C21", len(simexectrace.Tasks) == want, "tasks", "there are %d tasks of %d spans that should have one", len(simexectrace.Tasks), want)
		},
	})
}
