//go:build go1.23

package harness

import (
	"context"
	"sort"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/verifsim/simrt"
)

// The flood workload: far more records than the worker's queue holds, under
// more tag values than any other workload uses, while an exporter is slow and
// commands pile up behind it. The views stay registered; what is checked is
// that not one record is lost, made up, or put in the wrong row.

const floodMaxKeys = 400

var floodBounds = []float64{10, 100, 1000}

type floodCell struct {
	n   int64
	sum int64
	bkt [4]int64
}

func (c *floodCell) add(v int64) {
	c.n++
	c.sum += v
	b := 0
	for b < len(floodBounds) && float64(v) >= floodBounds[b] {
		b++
	}
	c.bkt[b]++
}

type floodLast struct {
	v        int64
	inv, ret int
}

type floodSim struct {
	h       *H
	meter   view.Meter
	m       *stats.Int64Measure
	key     tag.Key
	views   [4]*view.View // count, sum, dist, last
	inv     map[string]*floodCell
	ret     map[string]*floodCell
	last    map[string]map[int]*floodLast
	values  map[string]map[int64]bool
	exports [4]map[string]int64 // what was exported last
	stalled int64               // simulated time exporters spent
	inExp   bool
	during  int // records begun while an exporter was at work
}

func (fs *floodSim) cell(m map[string]*floodCell, k string) *floodCell {
	c := m[k]
	if c == nil {
		c = &floodCell{}
		m[k] = c
	}
	return c
}

func floodCopy(m map[string]*floodCell) map[string]floodCell {
	out := make(map[string]floodCell, len(m))
	for k, c := range m {
		out[k] = *c
	}
	return out
}

type floodExp struct {
	fs    *floodSim
	slow  int64
	calls int
	n     int // how many calls are slow
}

func (e *floodExp) ExportView(d *view.Data) {
	fs := e.fs
	for i, v := range fs.views {
		if d.View.Name != v.Name {
			continue
		}
		now := map[string]int64{}
		for _, r := range d.Rows {
			k := floodKey(r.Tags)
			n, what := fs.judgeRow(i, k, r.Data, nil, floodCopy(fs.inv))
			if what != "" {
				fs.h.Bad("C01", "flood export", "exported: %s", what)
			}
			now[k] = n
			if i < 3 && n < fs.exports[i][k] {
				fs.h.Bad("C01", "flood export went back", "view %s row %q: exported %d after %d", v.Name, k, n, fs.exports[i][k])
			}
		}
		for k := range fs.exports[i] {
			if _, ok := now[k]; !ok {
				fs.h.Bad("C01", "flood export lost a row", "view %s: row %q was exported before and is not now", v.Name, k)
			}
		}
		fs.exports[i] = now
	}
	if e.calls++; e.slow > 0 && e.calls <= e.n {
		fs.h.Fault("slow exporter")
		fs.inExp = true
		simrt.Sleep(e.slow)
		fs.inExp = false
		fs.stalled += e.slow
	}
}

func floodKey(tags []tag.Tag) string {
	if len(tags) == 0 {
		return ""
	}
	return tags[0].Value
}

// judgeRow compares a row with what had been recorded at least (lo) and at
// most (hi); lo is nil where anything may be still to come.
func (fs *floodSim) judgeRow(i int, k string, data view.AggregationData, lo, hi map[string]floodCell) (int64, string) {
	l, u := lo[k], hi[k]
	within := func(what string, got, a, b int64) string {
		if got < a || got > b {
			return sf("view %s row %q: %s %d, want %d to %d", fs.views[i].Name, k, what, got, a, b)
		}
		return ""
	}
	if u.n == 0 {
		return 0, sf("view %s: there is a row %q, for which nothing was recorded", fs.views[i].Name, k)
	}
	switch d := data.(type) {
	case *view.CountData:
		return d.Value, within("count", d.Value, l.n, u.n)
	case *view.SumData:
		return int64(d.Value), within("sum", int64(d.Value), l.sum, u.sum)
	case *view.LastValueData:
		if !fs.values[k][int64(d.Value)] {
			return 0, sf("view %s row %q: last value %v was never recorded", fs.views[i].Name, k, d.Value)
		}
		return 0, ""
	case *view.DistributionData:
		s := within("count", d.Count, l.n, u.n)
		n := int64(0)
		for b, c := range d.CountPerBucket {
			if s == "" {
				s = within(sf("bucket %d", b), c, l.bkt[b], u.bkt[b])
			}
			n += c
		}
		if s == "" && n != d.Count {
			s = sf("view %s row %q: the buckets hold %d, the count is %d", fs.views[i].Name, k, n, d.Count)
		}
		return d.Count, s
	}
	return 0, sf("view %s row %q: data of type %T", fs.views[i].Name, k, data)
}

func (fs *floodSim) one(c int, k string, vals []int64) {
	ctx := context.Background()
	muts := []tag.Mutator{tag.Upsert(fs.key, k)}
	if k == "" {
		muts = nil
	}
	var ms []stats.Measurement
	inv := simrt.Log("record", k)
	for _, v := range vals {
		ms = append(ms, fs.m.M(v))
		fs.cell(fs.inv, k).add(v)
		if fs.values[k] == nil {
			fs.values[k] = map[int64]bool{}
			fs.last[k] = map[int]*floodLast{}
		}
		fs.values[k][v] = true
	}
	if fs.inExp {
		fs.during++
	}
	var err error
	if fs.meter != nil {
		err = stats.RecordWithOptions(ctx, stats.WithMeasurements(ms...), stats.WithTags(muts...), stats.WithRecorder(fs.meter))
	} else {
		err = stats.RecordWithTags(ctx, muts, ms...)
	}
	fs.h.Check("C01", err == nil, "record-error", "recording failed: %v", err)
	for _, v := range vals {
		fs.cell(fs.ret, k).add(v)
	}
	fs.last[k][c] = &floodLast{vals[len(vals)-1], inv, simrt.Log("record done", k)}
}

// records: A records under the tag values from B on in steps of C; D is the
// first value, and how many measurements are recorded at once.
func (fs *floodSim) records(c int, op Op) {
	per := int(op.D % 100)
	if per < 1 {
		per = 1
	}
	v := op.D / 100
	for i := int64(0); i < op.A; i++ {
		k := ""
		if n := (op.B + i*op.C) % floodMaxKeys; n > 0 {
			k = sf("r%d", n)
		}
		vals := make([]int64, per)
		for j := range vals {
			v = (v*7 + 1) % 1999
			vals[j] = v + 1
		}
		fs.one(c, k, vals)
	}
}

func (fs *floodSim) get(i int, final bool) {
	lo := floodCopy(fs.ret)
	name := fs.views[i].Name
	var rows []*view.Row
	var err error
	if fs.meter != nil {
		rows, err = fs.meter.RetrieveData(name)
	} else {
		rows, err = view.RetrieveData(name)
	}
	hi := floodCopy(fs.inv)
	fs.h.Check("C01", err == nil, "flood retrieve", "RetrieveData: %v", err)
	seen := map[string]bool{}
	for _, r := range rows {
		k := floodKey(r.Tags)
		_, s := fs.judgeRow(i, k, r.Data, lo, hi)
		if s == "" && seen[k] {
			s = sf("view %s: two rows %q", name, k)
		}
		seen[k] = true
		if d, ok := r.Data.(*view.LastValueData); ok && final && s == "" && !fs.canBeLast(k, int64(d.Value)) {
			s = sf("view %s row %q: the last value is %v, which is not the last one recorded", name, k, d.Value)
		}
		fs.h.Check("C01", s == "", "flood data", "retrieved: %s", s)
	}
	for _, k := range sortedKeys(lo) {
		fs.h.Check("C01", seen[k], "flood row lost", "view %s: no row %q, under which %d measurements had been recorded", name, k, lo[k].n)
	}
}

// canBeLast says whether v can be the last value recorded under k.
func (fs *floodSim) canBeLast(k string, v int64) bool {
	for _, a := range fs.last[k] {
		if a.v != v {
			continue
		}
		ok := true
		for _, b := range fs.last[k] {
			ok = ok && b.inv <= a.ret
		}
		if ok {
			return true
		}
	}
	return false
}

func (fs *floodSim) read() {
	var lo, hi map[string]floodCell
	lo = floodCopy(fs.ret)
	var ms []*metricdata.Metric
	for _, p := range metricproducer.GlobalManager().GetAll() {
		ms = append(ms, p.Read()...)
	}
	hi = floodCopy(fs.inv)
	// A record is in a metric once the worker has got to it: there is no lower
	// bound before the queue has been waited for.
	_ = lo
	for _, m := range ms {
		for i, v := range fs.views {
			if m.Descriptor.Name != v.Name {
				continue
			}
			for _, ts := range m.TimeSeries {
				k := ""
				if len(ts.LabelValues) == 1 && ts.LabelValues[0].Present {
					k = ts.LabelValues[0].Value
				}
				for _, p := range ts.Points {
					got, s := int64(0), ""
					switch x := p.Value.(type) {
					case int64:
						got = x
					case *metricdata.Distribution:
						got = x.Count
						if int64(x.Sum) > hi[k].sum {
							s = sf("sum %v, want at most %d", x.Sum, hi[k].sum)
						}
					default:
						s = sf("value of type %T", p.Value)
					}
					max := []int64{hi[k].n, hi[k].sum, hi[k].n, 1 << 60}[i]
					if s == "" && got > max {
						s = sf("%d, want at most %d", got, max)
					}
					if s == "" && i == 3 && !fs.values[k][got] {
						s = sf("last value %d was never recorded", got)
					}
					fs.h.Check("C01", s == "", "flood metric", "metric %s under %q: %s", v.Name, k, s)
				}
			}
		}
	}
}

func (fs *floodSim) exec(c int, op Op) {
	switch op.K {
	case "recs":
		fs.records(c, op)
	case "get":
		fs.get(int(op.A)%4, false)
	case "read":
		fs.read()
	case "sleep":
		simrt.Sleep(op.A)
	}
}

func genFlood(r *Rand, deep bool) *Plan {
	p := &Plan{Knobs: map[string]int64{"_maxtick": 0}}
	p.Knobs["meter"] = int64(r.Intn(2))
	p.Knobs["period"] = r.Dur(time.Second, time.Minute)
	p.Knobs["slow"] = r.Dur(time.Second, 10*time.Minute)
	p.Knobs["nslow"] = r.I64(1, 3)
	p.Knobs["exps"] = r.I64(1, 2)
	p.Knobs["_hang"] = int64(100 * time.Hour)
	nc := r.Range(1, 4)
	// Floods take long: most runs are only showers.
	total := r.Range(20, 200)
	if r.Bool(0.07) {
		nc, total = r.Range(1, 3), r.Range(1100, 2200)
	}
	if deep && r.Bool(0.1) {
		total = r.Range(1000, 5000)
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		if r.Bool(0.8) { // until the exporter is at work
			ops = append(ops, Op{K: "sleep", A: p.Knobs["period"] + r.Dur(time.Millisecond, time.Second/2)})
		}
		for left := total / nc; left > 0; {
			n := r.Range(1, left)
			if n < left/3 {
				n = left / 3
			}
			if len(ops) <= 1 && r.Bool(0.5) {
				n = left
			}
			op := Op{K: "recs", A: int64(n), B: r.I64(0, 30), C: r.I64(0, 3), D: r.I64(0, 500)*100 + 1}
			if r.Bool(0.2) { // many at once
				op.A, op.D = int64(n/60+1), op.D-1+r.I64(10, 60)
			}
			ops = append(ops, op)
			left -= n
			switch r.PickW(3, 1, 1, 1) {
			case 1:
				ops = append(ops, Op{K: "get", A: r.I64(0, 3)})
			case 2:
				ops = append(ops, Op{K: "read"})
			case 3:
				ops = append(ops, Op{K: "sleep", A: r.Dur(time.Millisecond, time.Second)})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func init() {
	Register(&Workload{
		Name: "flood", Props: []string{"C01"}, Gen: genFlood, Weight: 1, MaxYields: 20000000, NoTime: true,
		Run: func(h *H) {
			fs := &floodSim{h: h, inv: map[string]*floodCell{}, ret: map[string]*floodCell{}, last: map[string]map[int]*floodLast{}, values: map[string]map[int64]bool{}}
			fs.m = stats.Int64("flood", "d", "1")
			fs.key = tag.MustNewKey("fk")
			for i := range fs.views {
				fs.views[i] = &view.View{Name: sf("flood%d", i), Measure: fs.m, TagKeys: []tag.Key{fs.key}, Aggregation: []*view.Aggregation{view.Count(), view.Sum(), view.Distribution(floodBounds...), view.LastValue()}[i]}
			}
			if h.K("meter") == 1 {
				fs.meter = view.NewMeter()
				fs.meter.Start()
				h.Check("C01", fs.meter.Register(fs.views[:]...) == nil, "flood register", "registering failed")
				fs.meter.SetReportingPeriod(time.Duration(h.K("period")))
			} else {
				h.Check("C01", view.Register(fs.views[:]...) == nil, "flood register", "registering failed")
				view.SetReportingPeriod(time.Duration(h.K("period")))
			}
			for i := int64(0); i < h.K("exps"); i++ {
				e := &floodExp{fs: fs, slow: h.K("slow") * (1 - i), n: int(h.K("nslow"))}
				if fs.meter != nil {
					fs.meter.RegisterExporter(e)
				} else {
					view.RegisterExporter(e)
				}
			}
			if !h.RunClients("C01", h.HangLimit(), fs.exec) {
				return
			}
			if fs.during > 1024 {
				h.Probe("more records than the queue holds during an export")
			}
			for i := range fs.views {
				fs.get(i, true)
			}
			fs.read()
		},
	})
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
