//go:build go1.23

package harness

import (
	"context"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/verifsim/simrt"
)

// The viewreg workload: clients register, find, retrieve and unregister equal,
// conflicting and invalid views of a few names, several at a time, while
// others record; the history must be that of one table.

const (
	vrNames    = 3
	vrVariants = 16
	vrNameless = 12
)

// vrClass groups the variants that are equal. The nameless one has no name of its
// own, but its measure's, and counts the measure of its name.
var vrClass = []int{0, 0, 1, 2, 3, 3, 4, -1, -1, -1, -1, -1, 0, 5, 6, 6}

func vrClassOf(v int) int {
	if v%100 == vrNameless {
		return []int{0, 2}[v/100%10]
	}
	return vrClass[v%100]
}

// vrMeasure is the measure of a view.
func vrMeasure(v int) uint {
	if v%100 == 3 || v%100 == 13 || v%100 == vrNameless && v/100%10 == 1 {
		return 1
	}
	return 0
}

type vrEvent struct {
	iv
	kind  string
	views []int // packed client*1000 + name*100 + variant
	name  int
	err   bool
	found int // packed, -1 none
	count int64
	meas  int64
	seen  [vrNames]int64 // what a read says of each view: its records, 0 if it is not read
}

type vrSim struct {
	h     *H
	meter view.Meter
	m     [2]*stats.Int64Measure
	views map[int]*view.View
	evs   []*vrEvent
}

func vrName(i int) string { return sf("table%d", i) }

func (vs *vrSim) view(c, name, variant int) *view.View {
	id := c*1000 + name*100 + variant
	if v := vs.views[id]; v != nil {
		return v
	}
	v := &view.View{Name: vrName(name), Description: "d", Measure: vs.m[vrMeasure(id)]}
	switch variant {
	case 0, 1, 3:
		v.Aggregation = view.Count()
		if variant == 1 {
			v.Measure = stats.Int64(vrName(int(vrMeasure(id))), "another", "By")
			if c%2 == 1 { // what it is grouped by is not compared
				v.Description, v.TagKeys = "another", []tag.Key{tag.MustNewKey("k")}
			}
		}
	case 2:
		v.Aggregation = view.Sum()
	case 4:
		v.Aggregation = view.Distribution(1, 5)
	case 5:
		v.Aggregation = view.Distribution(5, 0, 1)
	case 6:
		v.Aggregation = view.Distribution(1, 6)
	case 7:
		v.Measure, v.Aggregation = nil, view.Count()
	case 8:
		v.Aggregation = view.Distribution(-1, 5)
	case 9: // no aggregation
	case 10:
		v.Name, v.Aggregation = strings.Repeat("n", 256), view.Count()
	case 11:
		v.Name, v.Aggregation = "t\u00e9"+v.Name, view.Count()
	case 13:
		v.Aggregation = view.Distribution(1, 5)
	case 14:
		v.Aggregation = view.Distribution()
	case 15:
		v.Aggregation = view.Distribution(0)
	case vrNameless:
		v.Name, v.Description, v.Aggregation = "", "", view.Count()
	}
	vs.views[id] = v
	return v
}

// unpack reads a list of (name, variant) pairs, one byte each, from an operation.
func vrList(op Op) (out [][2]int) {
	for x := op.B; x > 0; x >>= 8 {
		n, v := int(x&15)%vrNames, int(x>>4&15)%vrVariants
		if v >= 10 && v <= vrNameless && op.K == "unreg" || v == vrNameless && n == 2 {
			v = 0 // these have other names or none, and there is no third measure
		}
		out = append(out, [2]int{n, v})
	}
	return out
}

func (vs *vrSim) exec(c int, op Op) {
	e := &vrEvent{kind: op.K, found: -1}
	vs.evs = append(vs.evs, e)
	switch op.K {
	case "reg", "unreg":
		if op.C&1 != 0 {
			c = 9 // views that all clients share
		}
		var list []*view.View
		for _, x := range vrList(op) {
			list = append(list, vs.view(c, x[0], x[1]))
			e.views = append(e.views, c*1000+x[0]*100+x[1])
		}
		e.iv = begin(op.K, op.B)
		if op.K == "reg" {
			var err error
			if vs.meter != nil {
				err = vs.meter.Register(list...)
			} else {
				err = view.Register(list...)
			}
			e.err = err != nil
		} else if vs.meter != nil {
			vs.meter.Unregister(list...)
		} else {
			view.Unregister(list...)
		}
		e.end(op.K + " done")
	case "find":
		e.name = int(op.A)
		e.iv = begin("find", op.A)
		var v *view.View
		if vs.meter != nil {
			v = vs.meter.Find(vrName(e.name))
		} else {
			v = view.Find(vrName(e.name))
		}
		e.end("find done")
		if v != nil {
			e.found = -2
			for id, x := range vs.views {
				if x == v {
					e.found = id
				}
			}
			vs.h.Check("C02", e.found >= 0, "found-foreign", "Find returned a view that was never registered")
		}
	case "get":
		e.name = int(op.A)
		e.iv = begin("get", op.A)
		var rows []*view.Row
		var err error
		if vs.meter != nil {
			rows, err = vs.meter.RetrieveData(vrName(e.name))
		} else {
			rows, err = view.RetrieveData(vrName(e.name))
		}
		e.end("get done")
		e.err = err != nil
		for _, r := range rows {
			switch d := r.Data.(type) {
			case *view.CountData:
				e.count += d.Value
			case *view.SumData:
				e.count += int64(d.Value)
			case *view.DistributionData:
				e.count += d.Count
			}
		}
		vs.h.Check("C02", len(rows) <= 1 && (err == nil || len(rows) == 0), "rows", "%d rows, error %v", len(rows), err)
	case "rec":
		e.meas = op.A
		if op.B&4 != 0 {
			stats.Int64(sf("new%d", len(vs.evs)), "new", "1")
		}
		e.iv = begin("record", op.A)
		var ms []stats.Measurement
		for i := range vs.m {
			if op.A&(1<<uint(i)) != 0 {
				m := vs.m[i]
				if op.B&(1<<uint(i)) != 0 { // a measure of the same name is the same measure
					m = stats.Int64(vrName(i), "another", "1")
				}
				ms = append(ms, m.M(1))
			}
		}
		if vs.meter != nil {
			_ = stats.RecordWithOptions(context.Background(), stats.WithMeasurements(ms...), stats.WithRecorder(vs.meter))
		} else {
			stats.Record(context.Background(), ms...)
		}
		e.end("record done")
	case "read":
		e.iv = begin("read", nil)
		// records are queued: ask the queue for something, so that those of
		// the past are in the views
		if vs.meter != nil {
			vs.meter.Find("")
		} else {
			view.Find("")
		}
		for _, p := range metricproducer.GlobalManager().GetAll() {
			for _, m := range p.Read() {
				for i := range e.seen {
					if m.Descriptor.Name == vrName(i) {
						for _, ts := range m.TimeSeries {
							for _, pt := range ts.Points {
								switch d := pt.Value.(type) {
								case int64:
									e.seen[i] += d
								case *metricdata.Distribution:
									e.seen[i] += d.Count
								}
							}
						}
					}
				}
			}
		}
		e.end("read done")
	case "sleep":
		vs.evs = vs.evs[:len(vs.evs)-1]
		simrt.Sleep(op.A)
	}
}

// The state of the table: per name, the registered view (or -1) and the number
// of records it holds.
type vrState [vrNames]struct {
	v int
	n int64
}

func (s *vrState) pack() string {
	var b strings.Builder
	for _, x := range s {
		b.WriteByte(byte(x.v + 1))
		b.WriteByte(byte((x.v + 1) >> 8))
		b.WriteByte(byte(x.n))
	}
	return b.String()
}

func unpackVR(str string) (s vrState) {
	for i := range s {
		s[i].v = int(str[3*i]) + int(str[3*i+1])<<8 - 1
		s[i].n = int64(str[3*i+2])
	}
	return
}

func (vs *vrSim) step(e *vrEvent, st string) []string {
	if e.kind != "rec" {
		if st, ok := vs.step1(e, st); ok {
			return []string{st}
		}
		return nil
	}
	// A record is handled only if one of its measures was in use when it was
	// made, and a call that registers several views brings the measures into
	// use one by one.
	s := unpackVR(st)
	drop := false
	for i := range s {
		x := &s[i]
		if x.v < 0 || e.meas&(1<<vrMeasure(x.v)) == 0 {
			continue
		}
		x.n++
		for _, o := range vs.evs {
			if o.kind == "reg" && len(o.views) > 1 && o.inv < e.ret && e.inv < o.ret {
				drop = true
			}
		}
	}
	if drop {
		return []string{s.pack(), st}
	}
	return []string{s.pack()}
}

func (vs *vrSim) step1(e *vrEvent, st string) (string, bool) {
	s := unpackVR(st)
	switch e.kind {
	case "reg":
		for _, v := range e.views {
			if vrClassOf(v) < 0 { // an invalid view: nothing is registered
				return st, e.err
			}
		}
		bad := false
		for _, v := range e.views {
			x := &s[v/100%10]
			switch {
			case x.v < 0:
				x.v, x.n = v, 0
			case vrClassOf(x.v) != vrClassOf(v):
				bad = true
			}
		}
		return s.pack(), e.err == bad
	case "unreg":
		for _, v := range e.views {
			x := &s[v/100%10]
			x.v, x.n = -1, 0
		}
		return s.pack(), true
	case "find":
		return st, s[e.name].v == e.found
	case "get":
		x := s[e.name]
		if x.v < 0 {
			return st, e.err
		}
		return st, !e.err && x.n == e.count
	case "read":
		for i := range s {
			n := int64(0) // a view without rows is not read
			if s[i].v >= 0 {
				n = s[i].n
			}
			if n != e.seen[i] {
				return st, false
			}
		}
		return st, true
	}
	return st, true
}

func (vs *vrSim) judge() {
	if simrt.Race { // only races are looked for
		return
	}
	sort.SliceStable(vs.evs, func(i, j int) bool { return vs.evs[i].inv < vs.evs[j].inv })
	var ops []iv
	for _, e := range vs.evs {
		ops = append(ops, e.iv)
	}
	init := vrState{}
	for i := range init {
		init[i].v = -1
	}
	ok, gave, longest := linearizable(ops, init.pack(), func(i int, st string) []string { return vs.step(vs.evs[i], st) }, 60000)
	if gave {
		simrt.Probe("reached: linearization search gave up")
	}
	detail := ""
	if !ok {
		for i, e := range vs.evs {
			mark := " "
			if longest&(1<<uint(i)) == 0 {
				mark = "?"
			}
			detail += sf("\n%s [%d,%d] %s views %v name %d err %v found %d count %d measures %d read %v", mark, e.inv, e.ret, e.kind, e.views, e.name, e.err, e.found, e.count, e.meas, e.seen)
		}
	}
	for id, v := range vs.views { // a view without a name and description has its measure's
		if id%100 == vrNameless && v.Name != "" {
			vs.h.Check("C02", v.Name == v.Measure.Name() && v.Description == v.Measure.Description(), "default-name", "a view without a name on measure %q is named %q and described %q", v.Measure.Name(), v.Name, v.Description)
		}
	}
	vs.h.Check("C02", ok, "not-linearizable", "no order of these calls on one table gives their results:%s", detail)
}

func genViewReg(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"meter": int64(r.Intn(2))}}
	nc := r.Range(2, 4)
	per := r.Range(3, 8)
	if deep && r.Bool(0.3) {
		per = r.Range(8, 14)
	}
	single := r.Bool(0.4)
	names := r.Range(1, vrNames)
	item := func() int64 {
		v := int64(r.PickW(4, 3, 3, 2, 3, 3, 2, 1, 1, 1))
		if v >= 7 {
			v += 6
		}
		if r.Bool(0.07) {
			v = r.I64(7, 11)
		}
		if r.Bool(0.1) {
			v = vrNameless
		}
		return r.I64(0, names-1) | v<<4
	}
	shared := int64(0)
	if r.Bool(0.4) {
		shared = 1
	}
	n := 0
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < per && n < 60; i++ {
			n++
			list := func() int64 {
				x := item() | 256
				x = item()
				if !single {
					n := 3
					if r.Bool(0.1) {
						n = 7
					}
					for k := r.Intn(n); k > 0; k-- {
						x = x<<8 | item()
					}
				}
				if x == 0 {
					x = 16
				}
				return x
			}
			switch r.PickW(6, 4, 3, 4, 3, 1, 1) {
			case 0:
				ops = append(ops, Op{K: "reg", B: list(), C: shared})
			case 1:
				ops = append(ops, Op{K: "unreg", B: list(), C: shared})
			case 2:
				ops = append(ops, Op{K: "find", A: r.I64(0, names-1)})
			case 3:
				ops = append(ops, Op{K: "get", A: r.I64(0, names-1)})
			case 4:
				ops = append(ops, Op{K: "rec", A: r.I64(1, 3), B: r.I64(0, 7) & r.I64(0, 7)})
			case 5:
				if single {
					ops = append(ops, Op{K: "read"})
				}
			case 6:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Microsecond, 30*time.Second)})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "viewreg", Props: []string{"C02"}, Gen: genViewReg, Weight: 6,
		Run: func(h *H) {
			vs := &vrSim{h: h, views: map[int]*view.View{}}
			if h.K("meter") == 1 {
				vs.meter = view.NewMeter()
				vs.meter.Start()
			}
			vs.m[0] = stats.Int64(vrName(0), "d", "1")
			vs.m[1] = stats.Int64(vrName(1), "d", "1")
			for _, c := range []int{0, 1, 2, 3, 9} { // library calls yield, so before the clients start
				for n := 0; n < vrNames; n++ {
					for v := 0; v < vrVariants; v++ {
						if v == vrNameless && n == 2 {
							continue
						}
						vs.view(c, n, v)
					}
				}
			}
			if !h.RunClients("C02", h.HangLimit(), vs.exec) {
				return
			}
			for n := 0; n < vrNames; n++ {
				vs.exec(0, Op{K: "get", A: int64(n)})
				vs.exec(0, Op{K: "find", A: int64(n)})
			}
			vs.judge()
		},
	})
}
