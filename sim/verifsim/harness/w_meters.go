//go:build go1.23

package harness

import (
	"context"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/verifsim/simrt"
)

// The meters workload: several meters (the default one among them) share
// measures, views, aggregations and one exporter, and are started, used and
// stopped at any moment. Every record is tagged with its meter and weighs what
// only that meter's records weigh.

const (
	mtMeters = 4 // 0 is the default meter
	mtViews  = 3
)

type mtRec struct {
	iv
	meter int
	n     int64
}

type mtReg struct {
	iv
	meter, view int
	reg, ok     bool
}

type mtGet struct {
	iv
	meter, view int
	count       int64
	err         bool
}

type mtExport struct {
	iv
	exp, view int
	who       int // the meter the rows are of, -1 if none
	count     int64
	empty     bool
}

type mtEreg struct {
	meter      int
	reg, unreg iv
}

type mtStop struct{ iv }

// mtRes is a resource that was set.
type mtRes struct {
	iv
	name string
}

type mtSim struct {
	h       *H
	base    clockBase
	m       *stats.Int64Measure
	key     tag.Key
	views   [mtViews]*view.View
	meters  [mtMeters]view.Meter
	started [mtMeters]bool
	startAt [mtMeters]iv
	stops   [mtMeters][]*mtStop
	recs    []*mtRec
	regs    []*mtReg
	gets    []*mtGet
	exports []*mtExport
	eregs   [mtMeters + 1][]*mtEreg // the registrations of each exporter: own ones, and the shared one
	exps    [mtMeters + 1]*mtExp
	ctxs    [mtMeters]context.Context
	inExp   [mtMeters + 1]int
	libs    int
	ress    [mtMeters][]*mtRes
}

type mtExp struct {
	id   int
	ms   *mtSim
	slow int64
}

func (e *mtExp) ExportView(d *view.Data) {
	ms := e.ms
	x := &mtExport{exp: e.id, view: -1, who: -1, empty: len(d.Rows) == 0}
	x.iv = begin("export", e.id)
	ms.exports = append(ms.exports, x)
	ms.inExp[e.id]++
	for i, v := range ms.views {
		if d.View == v || (d.View != nil && d.View.Name == v.Name) {
			x.view = i
		}
	}
	who, n, bad := ms.rows(d.Rows)
	x.who, x.count = who, n
	if bad != "" {
		ms.h.Bad("C04", "foreign data", "exporter %d got %s", e.id, bad)
	}
	if e.slow > 0 {
		ms.h.Fault("slow exporter")
		simrt.Sleep(e.slow)
	}
	ms.inExp[e.id]--
	x.end("export done")
}

// rows says whose the rows are and how many records they hold.
func (ms *mtSim) rows(rows []*view.Row) (who int, n int64, bad string) {
	who = -1
	for _, r := range rows {
		w := -1
		for _, t := range r.Tags {
			if t.Key == ms.key && len(t.Value) == 1 {
				w = int(t.Value[0] - '0')
			}
		}
		if w < 0 || w >= mtMeters || (who >= 0 && w != who) {
			return who, n, sf("rows of meters %d and %d in one", who, w)
		}
		who = w
		sum, cnt := int64(0), int64(-1)
		switch d := r.Data.(type) {
		case *view.CountData:
			cnt = d.Value
			sum = cnt * int64(w+1)
		case *view.SumData:
			sum = int64(d.Value)
		case *view.DistributionData:
			cnt, sum = d.Count, int64(d.Sum()+0.5)
		}
		if sum%int64(w+1) != 0 || (cnt >= 0 && sum != cnt*int64(w+1)) {
			return who, n, sf("rows of meter %d that hold %d records weighing %d", w, cnt, sum)
		}
		n = sum / int64(w+1)
	}
	if len(rows) > 1 {
		return who, n, sf("%d rows of meter %d", len(rows), who)
	}
	return who, n, ""
}

func (ms *mtSim) meter(i int) view.Meter { return ms.meters[i] }

func (ms *mtSim) stopped(i int) (by, from int) {
	by, from = never, never
	for _, s := range ms.stops[i] {
		if s.ret < by {
			by = s.ret
		}
		if s.inv < from {
			from = s.inv
		}
	}
	return
}

func (ms *mtSim) isProducer(i int) bool {
	for _, p := range metricproducer.GlobalManager().GetAll() {
		if ms.owner(p) == i {
			return true
		}
	}
	return false
}

// owner says whose producer p is.
func (ms *mtSim) owner(p metricproducer.Producer) int {
	for k := 1; k < mtMeters; k++ {
		if any(p) == any(ms.meters[k]) {
			return k
		}
	}
	return 0
}

func (ms *mtSim) exec(c int, op Op) {
	i := int(op.A)
	h := ms.h
	if op.K == "sleep" {
		simrt.Sleep(op.A)
		return
	}
	if op.K == "start" {
		if i > 0 && !ms.started[i] {
			ms.started[i] = true
			ms.startAt[i] = begin("start", i)
			ms.meters[i].Start()
			ms.startAt[i].end("started")
		}
		return
	}
	if !ms.started[i] {
		return // its calls wait for its start
	}
	m := ms.meters[i]
	switch op.K {
	case "stop":
		if i == 0 {
			simrt.Probe("reached: default meter stopped")
		}
		s := &mtStop{begin("stop", i)}
		ms.stops[i] = append(ms.stops[i], s)
		m.Stop()
		s.end("stopped")
		h.Check("C04", !ms.isProducer(i), "stopped meter is read", "meter %d is among the global producers after it was stopped", i)
		h.Check("C04", ms.inExp[i] == 0, "export outlives stop", "an export of meter %d was under way when stopping it had returned", i)
	case "rec":
		r := &mtRec{meter: i, n: op.B}
		ms.recs = append(ms.recs, r)
		r.iv = begin("record", i)
		for k := int64(0); k < op.B; k++ {
			if i == 0 {
				stats.Record(ms.ctxs[0], ms.m.M(1))
			} else {
				o := []stats.Options{stats.WithMeasurements(ms.m.M(int64(i + 1))), stats.WithRecorder(m)}
				if len(ms.recs)%3 == 0 {
					o = append(o, stats.WithAttachments(metricdata.Attachments{"meter": i}))
				}
				_ = stats.RecordWithOptions(ms.ctxs[i], o...)
			}
		}
		r.end("recorded")
	case "reg", "unreg":
		g := &mtReg{meter: i, view: int(op.B), reg: op.K == "reg"}
		ms.regs = append(ms.regs, g)
		g.iv = begin(op.K, i)
		if !g.reg {
			m.Unregister(ms.views[op.B])
			g.ok = true
		} else {
			err := m.Register(ms.views[op.B])
			g.ok = err == nil
			_, from := ms.stopped(i)
			h.Check("C04", g.ok || from != never, "register refused", "registering a view with meter %d failed: %v", i, err)
		}
		g.end(op.K + " done")
		by, _ := ms.stopped(i)
		if g.reg && g.inv > by {
			h.Check("C04", !g.ok, "stopped meter accepts", "meter %d accepted a view after it was stopped", i)
		}
	case "get":
		g := &mtGet{meter: i, view: int(op.B)}
		ms.gets = append(ms.gets, g)
		g.iv = begin("get", i)
		rows, err := m.RetrieveData(ms.views[op.B].Name)
		g.end("got")
		g.err = err != nil
		who, n, bad := ms.rows(rows)
		g.count = n
		h.Check("C04", bad == "" && (who < 0 || who == i), "foreign data", "meter %d has data of meter %d %s", i, who, bad)
		by, _ := ms.stopped(i)
		h.Check("C04", g.err || g.inv < by, "stopped meter answers", "meter %d gave data after it was stopped", i)
	case "find":
		inv := simrt.Log("find", i)
		v := m.Find(ms.views[op.B].Name)
		by, from := ms.stopped(i)
		simrt.Log("found", nil)
		h.Check("C04", v == nil || inv < by, "stopped meter answers", "meter %d found a view after it was stopped", i)
		if is := ms.isProducer(i); inv < from && !is {
			_, from := ms.stopped(i)
			h.Check("C04", from != never, "meter is not read", "meter %d is not among the global producers while it runs", i)
		} else if inv > by {
			h.Check("C04", !is, "stopped meter is read", "meter %d is among the global producers after it was stopped", i)
		}
	case "period":
		m.SetReportingPeriod(time.Duration(op.B))
		simrt.Log("period set", i)
	case "resource":
		if i == 0 {
			return // it has no such function
		}
		s := &mtRes{name: sf("meter%d/%d", i, len(ms.ress[i]))}
		ms.ress[i] = append(ms.ress[i], s)
		s.iv = begin("resource", i)
		m.SetResource(&resource.Resource{Type: s.name})
		s.end("resource set")
	case "regexp", "unregexp":
		e := i
		if op.B == 1 {
			e = mtMeters
		}
		if op.K == "regexp" {
			g := &mtEreg{meter: i, reg: begin("regexp", i), unreg: iv{inv: never, ret: never}}
			ms.eregs[e] = append(ms.eregs[e], g)
			m.RegisterExporter(ms.exps[e])
			g.reg.end("regexp done")
			return
		}
		u := begin("unregexp", i)
		var mine []*mtEreg
		for _, g := range ms.eregs[e] {
			if g.meter == i && g.reg.ret < u.inv && g.unreg.inv == never {
				g.unreg = u
				mine = append(mine, g)
			}
		}
		m.UnregisterExporter(ms.exps[e])
		u.end("unregexp done")
		for _, g := range mine {
			g.unreg = u
		}
	case "read":
		// everything that is read must belong to someone, and carry its resource
		inv := simrt.Log("read", nil)
		for _, p := range metricproducer.GlobalManager().GetAll() {
			owner := ms.owner(p)
			at := begin("read meter", owner)
			mts := p.Read()
			at.end("meter read")
			// what of its resources may have been set all the while
			may := map[string]bool{"": true}
			for _, s := range ms.ress[owner] {
				if s.inv < at.ret {
					may[s.name] = true
				}
				if s.ret < at.inv {
					delete(may, "")
				}
				for _, t := range ms.ress[owner] {
					if t.ret < s.inv && s.ret < at.inv {
						delete(may, t.name)
					}
				}
			}
			for _, mt := range mts {
				for _, ts := range mt.TimeSeries {
					who := "?"
					if len(ts.LabelValues) == 1 {
						who = ts.LabelValues[0].Value
					}
					h.Check("C04", who == sf("%d", owner), "foreign data", "reading meter %d gives data of meter %s", owner, who)
				}
				res := ""
				if mt.Resource != nil {
					res = mt.Resource.Type
				}
				h.Check("C04", may[res], "foreign resource", "reading meter %d gives the resource %q, it can be %v", owner, res, may)
			}
			if owner > 0 {
				by, _ := ms.stopped(owner)
				h.Check("C04", inv < by, "stopped meter is read", "meter %d is among the global producers after it was stopped", owner)
			}
		}
	}
}

func (ms *mtSim) judge() {
	if simrt.Race { // only races are looked for
		return
	}
	h := ms.h
	// counts: at least what was certainly recorded while the view was there, at most everything
	for _, g := range ms.gets {
		if g.ret == never {
			continue
		}
		_, from := ms.stopped(g.meter)
		ms.count(g.meter, g.view, g.iv, g.count, g.err, from)
	}
	for _, x := range ms.exports {
		own := x.exp < mtMeters
		m := x.who
		if own {
			h.Check("C04", m < 0 || m == x.exp, "foreign data", "the exporter of meter %d got data of meter %d", x.exp, m)
			m = x.exp
		}
		if m < 0 {
			continue
		}
		by, _ := ms.stopped(m)
		h.Check("C04", x.inv < by, "export after stop", "meter %d exported after it was stopped", m)
		// the exporter has to be registered with that meter, or have been while this export could be decided
		ok := false
		for _, g := range ms.eregs[x.exp] {
			if g.meter == m && g.reg.inv < x.inv && x.inv < g.unreg.ret {
				ok = true
			}
		}
		h.Check("C04", ok, "export of another meter", "exporter %d got data of meter %d, with which it is not registered", x.exp, m)
		if x.who >= 0 {
			max := int64(0)
			for _, r := range ms.recs {
				if r.meter == m && r.inv < x.inv {
					max += r.n
				}
			}
			h.Check("C04", x.count <= max, "too much", "meter %d exported %d records of view %d, %d were made", m, x.count, x.view, max)
		}
	}
}

func (ms *mtSim) count(meter, v int, at iv, got int64, failed bool, stopFrom int) {
	h := ms.h
	max := int64(0)
	for _, r := range ms.recs {
		if r.meter == meter && r.inv < at.ret {
			max += r.n
		}
	}
	h.Check("C04", got <= max, "too much", "meter %d holds %d records of view %d, %d were made", meter, got, v, max)
	if at.ret > stopFrom {
		return
	}
	// the registration this is about: the last one that returned before, with no unregistration near
	var reg *mtReg
	for _, g := range ms.regs {
		if g.meter != meter || g.view != v {
			continue
		}
		if g.reg && g.ret < at.inv && (reg == nil || g.ret < reg.ret) {
			reg = g
		}
	}
	if reg == nil {
		return
	}
	for _, g := range ms.regs {
		if g.meter == meter && g.view == v && !g.reg && g.inv < at.ret {
			return // comes and goes; the table is another workload's business
		}
	}
	min := int64(0)
	for _, r := range ms.recs {
		if r.meter == meter && r.inv > reg.ret && r.ret < at.inv {
			min += r.n
		}
	}
	h.Check("C04", !failed, "lost view", "meter %d does not know view %d, which was registered and not unregistered with it", meter, v)
	h.Check("C01", failed || got >= min, "lost data", "meter %d holds %d records of view %d, %d were certainly made since it was registered", meter, got, v, min)
	h.Check("C04", failed || got >= min, "lost data", "meter %d holds %d records of view %d, %d were certainly made since it was registered", meter, got, v, min)
}

func genMeters(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"slow": int64(r.Intn(3)) * r.Dur(time.Microsecond, 3*time.Second)}}
	p.Knobs["all"] = int64(r.Intn(2))
	nm := r.Range(2, mtMeters)
	nc := r.Range(2, 5)
	per := r.Range(4, 14)
	if deep && r.Bool(0.3) {
		per = r.Range(14, 40)
	}
	stopW := r.Range(0, 2)
	unregW := r.Range(0, 2)
	early := r.Bool(0.4)
	for c := 0; c < nc; c++ {
		var ops []Op
		if !early {
			for m := 1; m < nm; m++ {
				ops = append(ops, Op{K: "start", A: int64(m)})
			}
		}
		for i := 0; i < per; i++ {
			m, v := r.I64(0, nm-1), r.I64(0, mtViews-1)
			switch r.PickW(6, stopW, 8, 5, unregW, 5, 2, 2, 3, 1, 2, 4, 3) {
			case 0:
				if early {
					ops = append(ops, Op{K: "start", A: m})
				}
			case 1:
				if m > 0 || r.Bool(0.3) {
					ops = append(ops, Op{K: "stop", A: m})
				}
			case 2:
				ops = append(ops, Op{K: "rec", A: m, B: r.I64(1, 3)})
			case 3:
				ops = append(ops, Op{K: "reg", A: m, B: v})
			case 4:
				ops = append(ops, Op{K: "unreg", A: m, B: v})
			case 5:
				ops = append(ops, Op{K: "get", A: m, B: v})
			case 6:
				ops = append(ops, Op{K: "find", A: m, B: v})
			case 7:
				ops = append(ops, Op{K: "period", A: m, B: r.Dur(150*time.Millisecond, 20*time.Second)})
			case 8:
				ops = append(ops, Op{K: "regexp", A: m, B: r.I64(0, 1)})
			case 9:
				ops = append(ops, Op{K: "unregexp", A: m, B: r.I64(0, 1)})
			case 10:
				ops = append(ops, Op{K: "resource", A: m})
			case 11:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, 4*time.Second)})
			case 12:
				ops = append(ops, Op{K: "read"})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	if r.Bool(0.012) {
		// more records than the queue takes, while the worker is busy
		c := r.Intn(nc)
		p.Clients[c] = append(p.Clients[c], Op{K: "rec", A: r.I64(0, nm-1), B: r.I64(1030, 1400)})
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "meters", Props: []string{"C04", "C01"}, Gen: genMeters, Weight: 8,
		Run: func(h *H) {
			ms := &mtSim{h: h, base: newClockBase()}
			ms.m = stats.Int64("shared", "d", "1")
			ms.key = tag.MustNewKey("who")
			agg := view.Count()
			ms.views = [mtViews]*view.View{
				{Name: "mv0", Measure: ms.m, TagKeys: []tag.Key{ms.key}, Aggregation: agg},
				{Name: "mv1", Measure: ms.m, TagKeys: []tag.Key{ms.key}, Aggregation: view.Sum()},
				{Name: "mv2", Measure: ms.m, TagKeys: []tag.Key{ms.key}, Aggregation: view.Distribution(2, 4)},
			}
			for i := range ms.exps {
				ms.exps[i] = &mtExp{id: i, ms: ms, slow: h.K("slow")}
			}
			ms.meters[0], ms.started[0] = mtDefault{}, true
			for i := range ms.ctxs {
				ms.ctxs[i], _ = tag.New(context.Background(), tag.Insert(ms.key, string(rune('0'+i))))
				if i > 0 {
					ms.meters[i] = view.NewMeter()
				}
			}
			before := simrt.LibTasks()
			if !h.RunClients("C04", h.HangLimit(), ms.exec) {
				return
			}
			// everything is still as it should be in what was not stopped; then stop it all
			for i := range ms.meters {
				for v := range ms.views {
					ms.exec(0, Op{K: "get", A: int64(i), B: int64(v)})
				}
				ms.exec(0, Op{K: "find", A: int64(i)})
			}
			t := simrt.Spawn("stopper", func() {
				for i := 1 - int(h.K("all")); i < mtMeters; i++ {
					ms.exec(0, Op{K: "stop", A: int64(i)})
				}
			})
			if !h.JoinAll("C04", h.HangLimit(), []*simrt.Task{t}) {
				return
			}
			for i := 1 - int(h.K("all")); i < mtMeters; i++ {
				for _, k := range []string{"get", "find", "reg", "rec", "unreg", "period", "resource", "regexp", "stop"} {
					ms.exec(0, Op{K: k, A: int64(i), B: 1})
				}
			}
			view.SetReportingPeriod(time.Hour)
			simrt.Sleep(int64(time.Minute))
			h.Check("C04", simrt.LibTasks() <= before, "leaked goroutine", "%d library goroutines are left after all meters were stopped, there were %d before they started\n%s", simrt.LibTasks(), before, simrt.Describe())
			ms.judge()
		},
	})
}

// mtDefault is the default meter, by the package's functions.
type mtDefault struct{ view.Meter }

func (mtDefault) Register(v ...*view.View) error             { return view.Register(v...) }
func (mtDefault) Unregister(v ...*view.View)                 { view.Unregister(v...) }
func (mtDefault) Find(n string) *view.View                   { return view.Find(n) }
func (mtDefault) RetrieveData(n string) ([]*view.Row, error) { return view.RetrieveData(n) }
func (mtDefault) SetReportingPeriod(d time.Duration)         { view.SetReportingPeriod(d) }
func (mtDefault) RegisterExporter(e view.Exporter)           { view.RegisterExporter(e) }
func (mtDefault) UnregisterExporter(e view.Exporter)         { view.UnregisterExporter(e) }
func (mtDefault) SetResource(*resource.Resource)             {}
func (mtDefault) Stop()                                      { view.Stop() }
