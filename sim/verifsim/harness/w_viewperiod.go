//go:build go1.23

package harness

import (
	"context"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/verifsim/simrt"
)

// The viewperiod workload: time passes only where the plan says so, so the
// moments of the periodic exports are known exactly. One client goes through
// phases, each with a period and a fixed set of views and exporters; the others
// record, read, and step the wall clock meanwhile.

const vpMax = 3

// vpIdle is a period in which no tick falls.
const vpIdle = 1000000 * time.Hour

type vpCall struct {
	exp, view  int
	at, done   int64
	start, end int64 // of the data, as moments
}

type vpPhase struct {
	period     time.Duration
	t0, t1     int64
	first, end int // of vpSim.calls
	views      int
	exps       int
	slow       int64 // sum over the exporters
	known      bool  // nothing else can have been under way when it began
}

type vpSim struct {
	h      *H
	meter  view.Meter
	other  view.Meter
	base   clockBase
	m      *stats.Int64Measure
	views  [vpMax]*view.View
	exps   [vpMax]*vpExp
	vOn    [vpMax]bool
	eOn    [vpMax]bool
	regT0  [vpMax]int64
	regT1  [vpMax]int64
	calls  []*vpCall
	busy   int // calls in progress
	phases []*vpPhase
	jumps  int
	others int
}

type vpExp struct {
	id   int
	vp   *vpSim
	slow int64
}

func (e *vpExp) ExportView(d *view.Data) {
	vp := e.vp
	simrt.Log("export", e.id)
	c := &vpCall{exp: e.id, view: -1, at: mnow(), start: vp.base.mono(d.Start), end: vp.base.mono(d.End)}
	for i, v := range vp.views {
		if d.View != nil && d.View.Name == v.Name {
			c.view = i
		}
	}
	vp.calls = append(vp.calls, c)
	if e.slow > 0 {
		vp.h.Fault("slow exporter")
		simrt.Sleep(e.slow)
	}
	c.done = mnow()
	simrt.Log("export done", e.id)
}

func (vp *vpSim) register(v *view.View) error {
	if vp.meter != nil {
		return vp.meter.Register(v)
	}
	return view.Register(v)
}

// phase changes what is registered, sets the period and lets time pass.
// A: bits of views and exporters; B: period; C: length; D: slowness of the exporters.
func (vp *vpSim) phase(op Op) {
	for i := range vp.views {
		on := op.A&(1<<uint(i)) != 0
		if on && !vp.vOn[i] {
			vp.regT0[i] = mnow()
			err := vp.register(vp.views[i])
			vp.regT1[i] = mnow()
			vp.h.Check("C03", err == nil, "register", "registering a view failed: %v", err)
		} else if !on && vp.vOn[i] {
			if vp.meter != nil {
				vp.meter.Unregister(vp.views[i])
			} else {
				view.Unregister(vp.views[i])
			}
		}
		vp.vOn[i] = on
	}
	slow := op.D
	for i, e := range vp.exps {
		on := op.A&(16<<uint(i)) != 0
		if on && !vp.eOn[i] {
			if vp.meter != nil {
				vp.meter.RegisterExporter(e)
			} else {
				view.RegisterExporter(e)
			}
		} else if !on && vp.eOn[i] {
			if vp.meter != nil {
				vp.meter.UnregisterExporter(e)
			} else {
				view.UnregisterExporter(e)
			}
		}
		vp.eOn[i] = on
		if on {
			e.slow = slow
			slow = slow * 3 / 5
		}
	}
	vp.setPeriod(time.Duration(op.B))
	ph := &vpPhase{period: time.Duration(op.B), t0: mnow(), first: len(vp.calls)}
	if ph.period <= 0 {
		ph.period = 10 * time.Second
	}
	for i := range vp.views {
		if vp.vOn[i] {
			ph.views++
		}
		if vp.eOn[i] {
			ph.exps++
			ph.slow += vp.exps[i].slow
		}
	}
	simrt.Sleep(op.C)
	ph.t1, ph.end = mnow(), len(vp.calls)
	vp.phases = append(vp.phases, ph)
	vp.judgePhase(len(vp.phases)-1, ph)
	vp.setPeriod(vpIdle) // until the next phase, and after the last
}

func (vp *vpSim) setPeriod(d time.Duration) {
	if vp.meter != nil {
		vp.meter.SetReportingPeriod(d)
	} else {
		view.SetReportingPeriod(d)
	}
}

func (vp *vpSim) bad(class, format string, args ...any) {
	vp.h.Bad("C03", class, format, args...)
	if vp.others > 0 {
		vp.h.Bad("C04", class, format, args...)
	}
	if vp.jumps > 0 {
		vp.h.Bad("C11", class, format, args...)
	}
}

func (vp *vpSim) judgePhase(n int, ph *vpPhase) {
	h := vp.h
	h.Checks++
	calls := vp.calls[ph.first:ph.end]
	d, per := int64(ph.period), ph.views*ph.exps
	cycle := ph.slow * int64(ph.views)
	if per == 0 {
		if len(calls) > 0 {
			vp.bad("unexpected export", "phase %d: %d exports though there are %d views and %d exporters", n, len(calls), ph.views, ph.exps)
		}
		return
	}
	// when the k-th cycle (from 0) has to begin
	when := func(k int64) int64 {
		if cycle <= d {
			return ph.t0 + (k+1)*d
		}
		return ph.t0 + d + k*cycle
	}
	k := int64(0)
	for ; len(calls) > 0; k++ {
		seen := map[[2]int]bool{}
		if calls[0].at != when(k) {
			vp.bad("export at the wrong time", "phase %d: export cycle %d began %v after the period %v was set, want %v (%d views, exporters take %v)", n, k+1, time.Duration(calls[0].at-ph.t0), ph.period, time.Duration(when(k)-ph.t0), ph.views, time.Duration(ph.slow))
			return
		}
		m := per
		if m > len(calls) {
			m = len(calls)
			if last := when(k) + cycle; last < ph.t1 {
				vp.bad("incomplete export cycle", "phase %d: export cycle %d made %d of %d exports", n, k+1, m, per)
			}
		}
		for _, c := range calls[:m] {
			p := [2]int{c.exp, c.view}
			if c.view < 0 || !vp.vOn[c.view] || !vp.eOn[c.exp] || seen[p] {
				vp.bad("wrong export", "phase %d: in cycle %d exporter %d got view %d, which is a duplicate or not registered", n, k+1, c.exp, c.view)
				return
			}
			seen[p] = true
			if s := c.start; s < vp.regT0[c.view] || s > vp.regT1[c.view] {
				vp.bad("start time", "phase %d: the data of view %d start at %v, it was registered between %v and %v (%v after the fact)", n, c.view, s, vp.regT0[c.view], vp.regT1[c.view], time.Duration(c.at-vp.regT1[c.view]))
				return
			}
			if c.end < when(k) || c.end > c.at {
				vp.bad("end time", "phase %d: the data of view %d end at %v, the cycle began at %v and the export at %v", n, c.view, c.end, when(k), c.at)
				return
			}
		}
		calls = calls[m:]
	}
	if next := when(k); next < ph.t1 {
		vp.bad("missed export", "phase %d: no export %v after the period %v was set (%d cycles before; %d views, exporters take %v)", n, time.Duration(next-ph.t0), ph.period, k, ph.views, time.Duration(ph.slow))
	}
	if k > 0 {
		h.Probe("exact export cycles")
	}
}

func (vp *vpSim) exec(c int, op Op) {
	switch op.K {
	case "phase":
		if c == 0 {
			vp.phase(op)
		}
	case "rec":
		ms := vp.m.M(op.A)
		if vp.meter != nil {
			_ = stats.RecordWithOptions(context.Background(), stats.WithMeasurements(ms), stats.WithRecorder(vp.meter))
		} else {
			stats.Record(context.Background(), ms)
		}
	case "get":
		if vp.meter != nil {
			_, _ = vp.meter.RetrieveData("period0")
		} else {
			_, _ = view.RetrieveData("period0")
		}
	case "read":
		t := mnow()
		for _, p := range metricproducer.GlobalManager().GetAll() {
			for _, m := range p.Read() {
				for _, ts := range m.TimeSeries {
					for _, pt := range ts.Points {
						at, st := vp.base.mono(pt.Time), vp.base.mono(ts.StartTime)
						ok := at >= t && at <= mnow()
						if m.Descriptor.Type != metricdata.TypeGaugeInt64 {
							ok = ok && st <= at && st >= vp.base.m
						}
						if !ok {
							vp.h.Bad("C01", "point time", "a metric read between %v and %v says its point is of %v and starts at %v", t, mnow(), at, st)
							if vp.jumps > 0 {
								vp.h.Bad("C11", "point time", "a metric read between %v and %v says its point is of %v and starts at %v", t, mnow(), at, st)
							}
						}
					}
				}
			}
		}
	case "other":
		vp.others++
		// another meter, which is none of this one's business
		m := stats.WithRecorder(vp.other)
		switch op.B {
		case 0:
			vp.other.SetReportingPeriod(time.Duration(op.A))
		case 1:
			_ = vp.other.Register(vp.views[op.A%vpMax])
		case 2:
			vp.other.Unregister(vp.views[op.A%vpMax])
		case 3:
			_ = stats.RecordWithOptions(context.Background(), stats.WithMeasurements(vp.m.M(op.A)), m)
		}
	case "jump":
		vp.jumps++
		vp.h.Fault("wall clock jump")
		simrt.JumpWall(op.A)
	case "sleep":
		simrt.Sleep(op.A)
	}
}

func genViewPeriod(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"meter": int64(r.Intn(2)), "_maxtick": 0}}
	phases := r.Range(1, 3)
	if deep {
		phases = r.Range(2, 6)
	}
	total := int64(0)
	var ops []Op
	for i := 0; i < phases; i++ {
		op := Op{K: "phase", A: r.I64(1, 7) | r.I64(1, 7)<<4}
		switch r.PickW(5, 2, 1) {
		case 0:
			op.B = r.Dur(10*time.Microsecond, 10*time.Minute)
		case 1:
			op.B = int64(time.Second) * r.I64(1, 20)
		case 2:
			op.B = -r.I64(0, 5)
		}
		d := op.B
		if d <= 0 {
			d = int64(10 * time.Second)
		}
		op.C = d*r.I64(0, 12) + d/7 + r.I64(0, 1000)
		switch r.PickW(4, 3, 3) {
		case 1:
			op.D = d / r.I64(20, 60)
		case 2:
			op.D = d/r.I64(2, 12)*r.I64(1, 9) + 1
			op.C *= 3
		}
		total += op.C
		ops = append(ops, op)
	}
	p.Clients = append(p.Clients, ops)
	for c := r.Intn(4); c > 0; c-- {
		var ops []Op
		for i := r.Range(1, 8); i > 0; i-- {
			switch r.PickW(4, 1, 2, 4, 5, 2) {
			case 0:
				ops = append(ops, Op{K: "rec", A: r.I64(1, 9)})
			case 1:
				ops = append(ops, Op{K: "get"})
			case 2:
				ops = append(ops, Op{K: "read"})
			case 3:
				j := r.Dur(time.Microsecond, 400*24*time.Hour)
				if r.Bool(0.5) {
					j = -j
				}
				ops = append(ops, Op{K: "jump", A: j})
			case 4:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Duration(total/50)+1, time.Duration(total/2)+2)})
			case 5:
				op := Op{K: "other", A: r.I64(1, 9), B: r.I64(0, 3)}
				if op.B == 0 {
					op.A = r.Dur(time.Duration(total/60)+1, time.Duration(total)+2)
				}
				ops = append(ops, op)
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "viewperiod", Props: []string{"C03", "C04", "C11", "C01"}, Gen: genViewPeriod, Weight: 4, NoTime: true,
		Run: func(h *H) {
			vp := &vpSim{h: h, base: newClockBase()}
			vp.m = stats.Int64("periodm", "d", "1")
			for i := range vp.views {
				vp.views[i] = &view.View{Name: sf("period%d", i), Measure: vp.m, Aggregation: []*view.Aggregation{view.Count(), view.LastValue(), view.Distribution(3, 6)}[i]}
				vp.exps[i] = &vpExp{id: i, vp: vp}
			}
			vp.other = view.NewMeter()
			vp.other.Start()
			vp.other.SetReportingPeriod(vpIdle)
			if h.K("meter") == 1 {
				vp.meter = view.NewMeter()
				vp.meter.Start()
			}
			vp.setPeriod(vpIdle)
			h.RunClients("C03", 1000000*time.Hour, vp.exec)
		},
	})
}
